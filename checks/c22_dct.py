"""C22 cosine and sine transforms."""
import itertools
import numpy as np
import vp


def out(o):
    if o[0] != 'ok':
        return dict(kind='ValueError' if 'ValueError' in str(o[1]) else 'error', err=str(o[1])[:80], r=[], rsh=[])
    return dict(kind='ok', r=vp.reals(np.ravel(o[1])), rsh=[int(v) for v in np.shape(o[1])])


def record(seed, count):
    from wafo import dctpack as D
    rng = np.random.RandomState(seed)
    ev = []
    pairs = [('dctn', 'idctn', 'dct', 'idct', 'c'), ('dstn', 'idstn', 'dst', 'idst', 's')]
    for k in range(count):
        d = int(rng.choice([1, 1, 2, 2, 3]))
        sh = [int(v) for v in rng.choice([1, 2, 3, 4, 5], d)]
        x = np.round(rng.randn(*sh) * 8) / 4
        kind = k % 4
        x = x if kind else np.round(x).astype(int)
        if kind == 1:
            x = x > 0
        X = x.tolist() if kind == 2 else x
        x0 = np.array(x)
        nd, ind, one, ione, f = pairs[int(rng.randint(2))]
        inv = bool(rng.rand() < .4)
        t = int(rng.choice([2, 2, 3, 1]))
        ortho = bool(rng.rand() < .6) and t != 1 and f == 'c'
        if t == 1 and min(sh) < 2:
            t = 2
        norm = 'ortho' if ortho else None
        perm = rng.permutation(d)[:int(rng.randint(1, d + 1))]
        axes = [int(a) - (d if rng.rand() < .4 else 0) for a in perm]
        lens = [sh[a] for a in perm]
        mode = int(rng.randint(5))
        base = dict(op='transform', f=f, inv=inv, t=t, ortho=ortho, x=vp.reals(x0.astype(float).ravel()), sh=sh, refuse=False)
        fn = getattr(D, ind if inv else nd)
        if mode == 0:
            perm, lens = range(d), sh
            o = vp.call(lambda: fn(X, t, norm=norm))
        elif mode == 1:
            o = vp.call(lambda: fn(X, t, axes=axes if rng.rand() < .5 else tuple(axes), norm=norm))
        elif mode == 2:
            lens = [int(v) for v in rng.randint(2, 6, len(lens))]
            o = vp.call(lambda: fn(X, t, tuple(lens), axes, norm=norm))
        elif mode == 3:
            perm, lens = range(d), [int(v) for v in rng.randint(2, 6, d)]
            o = vp.call(lambda: fn(X, t, tuple(lens), norm=norm))
        else:
            ax = axes[0]
            perm, lens = [ax % d], [int(rng.randint(2, 6))] if rng.rand() < .5 else [sh[ax]]
            n = None if lens == [sh[ax]] else lens[0]
            fn1 = getattr(D, ione if inv else one)
            o = vp.call(lambda: fn1(X, t, n, ax, norm))
        e = dict(base)
        e.update(out(o), axes=[int(a) + 1 for a in perm], lens=[int(v) for v in lens])
        ev.append(e)
        if kind != 2:
            ev.append(dict(op='same', what='argument-unchanged', a=vp.reals(np.ravel(x)) + [str(x.dtype)], b=vp.reals(np.ravel(x0)) + [str(x0.dtype)]))
        # shape and axes of different length
        if k % 5 == 0:
            o = vp.call(lambda: getattr(D, nd)(X, shape=[2] * (len(axes) + 1), axes=axes))
            e = dict(base)
            e.update(out(o), axes=[], lens=[], refuse=True)
            ev.append(e)
        # defaults are orthonormal and invert each other, in either order
        a = None if rng.rand() < .4 else axes
        t = int(rng.choice([2, 3]))
        order = (nd, ind) if rng.rand() < .5 else (ind, nd)
        o = vp.call(lambda: getattr(D, order[1])(getattr(D, order[0])(X, t, axes=a), t, axes=a))
        e = out(o)
        e.update(op='back', x=base['x'], sh=sh)
        ev.append(e)
        # shiftdim
        y = np.arange(int(np.prod(sh))).reshape(sh)
        n = [None, 0, 1, 2, 3, -1, -2][int(rng.randint(7))]
        if n is not None or max(sh) > 1:
            o = vp.call(lambda: D.shiftdim(y) if n is None else D.shiftdim(y, n))
            ok = o[0] == 'ok'
            ev.append(dict(op='shiftdim', none=n is None, n=0 if n is None else n, x=y.ravel().tolist(), sh=sh, kind=o[0], r=np.ravel(o[1]).tolist() if ok else [], rsh=[int(v) for v in np.shape(o[1])] if ok else []))
    return ev


def replay(prints):
    from wafo import dctpack as D
    res = []
    for p in prints:
        x = np.array(p['x0'], float).reshape(p['sh'])
        ops = [a - 1 for a in p['ops']]
        want = np.array(p['x']).reshape(p['sh']) / np.sqrt(2.) ** sum(p['sh'][a] == 2 for a in ops)
        bad = None
        for nm in ('dct', 'idct', 'idctn', 'dctn'):
            def f():
                y = x
                for a in ops:
                    g = getattr(D, nm)
                    y = g(y, axes=[a]) if nm.endswith('n') else g(y, axis=a)
                return y
            o = vp.call(f)
            if o[0] != 'ok' or np.shape(o[1]) != want.shape or not np.allclose(o[1], want, atol=1e-12):
                bad = nm
        if len(set(ops)) == len(ops):
            o = vp.call(lambda: D.dctn(x, axes=ops))
            if o[0] != 'ok' or np.shape(o[1]) != want.shape or not np.allclose(o[1], want, atol=1e-12):
                bad = 'dctn-axes'
        res.append((dict(op='replay', sh=p['sh'], x0=p['x0'], ops=p['ops'], bad=bad), bad is None))
    return res


def run(R):
    m = R.model('DctModel', 'CONSTANTS MaxDim = %d\nValues = {0, 1}\nMaxOps = %d\nSPECIFICATION Spec\nINVARIANTS Parseval Involution Commute\n' % R.pick((2, 3), (3, 3)))
    R.replays(vp.drive(replay, m['prints']))
    R.check('DctTrace', vp.drive(record, R.seed, R.pick(120, 3000)))
