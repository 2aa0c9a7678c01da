"""C10 conditional evaluation."""
import numpy as np
import vp


def rec_fun(coef, seen, two):
    a, c, b = coef

    def f(x, *rest):
        y = rest[0] if two else np.zeros(np.shape(x))
        seen.extend([[int(p), int(q)] for p, q in zip(np.ravel(x), np.ravel(np.broadcast_to(y, np.shape(x))))])
        return a * np.asarray(x) + c * y + b
    return f


def record(seed, count):
    import wafo.misc as wm
    rng = np.random.RandomState(seed)
    ev = []
    for k in range(count):
        shape = [(int(rng.randint(1, 9)),), (int(rng.randint(1, 4)), int(rng.randint(1, 4)))][rng.randint(2)]
        x = rng.randint(-20, 21, size=shape).astype(float)
        two = bool(rng.randint(2))
        y = rng.randint(-20, 21, size=shape).astype(float) if two else np.zeros(shape)
        scalar_y = two and rng.rand() < .3
        if scalar_y:
            y = np.full(shape, float(rng.randint(-5, 6)))
        xs = (x, float(y.flat[0])) if scalar_y else ((x, y) if two else (x,))
        nf = int(rng.randint(1, 4))
        coef = [[int(q) for q in rng.randint(-3, 4, size=3)] for _ in range(nf + 1)]
        conds = [rng.rand(*shape) < p for p in rng.choice([0.0, 0.3, 0.6, 1.0], size=nf)]
        flat = dict(x=vp.ints(x.ravel()), y=vp.ints(y.ravel()))
        keep = [x.copy(), y.copy()] + [c.copy() for c in conds]

        def emit(op, out, cs, fs, seen, fill, rule):
            r = out
            if out[0] == 'ok':
                a = np.asarray(out[1])
                r = ('ok', a.ravel()) if a.shape == shape else ('error', 'shape %s' % (a.shape,))
            ev.append(dict(op=op, conds=[[bool(b) for b in c.ravel()] for c in cs], fun=fs, seen=seen,
                           fill=fill, rule=rule, r=vp.res_ints(r), **flat))
        # piecewise, with and without a function for "otherwise"
        other = bool(rng.randint(2))
        fs = coef[:nf + 1] if other else coef[:nf]
        seen = [[] for _ in fs]
        funs = [rec_fun(c, s, two) for c, s in zip(fs, seen)]
        fill = int(rng.randint(-9, 10))
        out = vp.call(wm.piecewise, list(conds), funs, xs if two else x, fillvalue=float(fill))
        cs = list(conds) + ([~np.logical_or.reduce(conds)] if other else [])
        emit('piecewise', out, cs, fs, seen, fill, 'last')
        # lazyselect: first match wins in np.select; conditions made disjoint here
        dis = []
        taken = np.zeros(shape, dtype=bool)
        for c in conds:
            dis.append(c & ~taken)
            taken |= c
        seen = [[] for _ in dis]
        funs = [rec_fun(c, s, two) for c, s in zip(coef, seen)]
        out = vp.call(wm.lazyselect, dis, funs, (x, y) if two else (x,), default=float(fill))
        emit('lazyselect', out, dis, coef[:nf], seen, fill, 'first')
        # lazywhere with a fill value or with an alternative function
        c0 = conds[0]
        if rng.randint(2):
            seen = [[]]
            out = vp.call(wm.lazywhere, c0, xs, rec_fun(coef[0], seen[0], two), fillvalue=float(fill))
            emit('lazywhere', out, [c0], coef[:1], seen, fill, 'first')
        else:
            seen = [[], []]
            out = vp.call(wm.lazywhere, c0, xs, rec_fun(coef[0], seen[0], two), f2=rec_fun(coef[1], seen[1], two))
            emit('lazywhere', out, [c0, ~c0], coef[:2], seen, fill, 'first')
        # argsreduce
        A = [x, y, rng.randint(-5, 6, size=shape).astype(float), np.array(float(fill))]
        out = vp.call(wm.argsreduce, c0, *A)
        r = dict(kind='error', err=str(out[1]))
        if out[0] == 'ok':
            try:
                r = dict(kind='rows', v=[vp.ints(np.ravel(q)) for q in out[1]])
            except Exception as exc:
                r = dict(kind='other', err=type(exc).__name__)
        ev.append(dict(op='argsreduce', cond=[bool(b) for b in c0.ravel()],
                       args=[vp.ints(np.broadcast_to(q, shape).ravel()) for q in A], r=r))
        now = [x, y] + conds
        ev.append(dict(op='same', what='input-unchanged', a=all(np.array_equal(p, q) for p, q in zip(now, keep)), b=True))
    return ev


def run(R):
    m = R.model('CondModel', 'CONSTANTS N = %d\nK = %d\nSPECIFICATION Spec\nINVARIANTS Covered LastWins DisjointAgree\n' % R.pick((3, 2), (4, 3)))

    def go():
        import wafo.misc as wm
        out = []
        for b in m['prints']:
            x = np.arange(1.0, len(b['want']) + 1)
            conds = [np.array(c) for c in b['conds']]
            funs = [(lambda q, k=k: 10.0 * (k + 1) + q) for k in range(len(conds))]
            r = vp.res_ints(vp.call(wm.piecewise, conds, funs, x, fillvalue=0.0))
            out.append((dict(op='replay', got=r, **b), r == dict(kind='ints', v=b['want'])))
        return out
    R.replays(vp.drive(go))
    R.check('HelpersTrace', vp.drive(record, R.seed, R.pick(500, 5000)))
