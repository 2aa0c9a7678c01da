"""C08 cycle matrices, counting distributions, rainflow matrix of a Markov chain."""
import numpy as np
import vp


def mat(out):
    if out[0] != 'ok':
        return dict(kind='error', err=out[1])
    try:
        a = np.asarray(out[1])
        if a.ndim != 2 or not vp.is_int_array(a):
            return dict(kind='other', err=str(a.shape))
        return dict(kind='matrix', v=vp.ints(a))
    except Exception as exc:
        return dict(kind='other', err=type(exc).__name__)


def triangle(rng, n, lo=1, hi=9):
    f = np.zeros((n, n))
    for r in range(n):
        for c in range(n - 1 - r):
            f[r, c] = rng.randint(lo, hi)
    return f


def reversible_pair(rng, n):
    """min->max and max->min frequencies with the same marginals but different chains."""
    f = triangle(rng, n, 3, 12)
    g = f.copy()
    for _ in range(6):
        r0, r1 = sorted(rng.choice(n - 1, 2, replace=False)) if n > 2 else (0, 0)
        c0, c1 = sorted(rng.choice(n - 1, 2, replace=False)) if n > 2 else (0, 0)
        if r1 + c1 <= n - 2 and r0 != r1 and c0 != c1:
            d = min(2, g[r0, c0] - 1, g[r1, c1] - 1)
            if d > 0:
                g[r0, c0] -= d; g[r1, c1] -= d; g[r0, c1] += d; g[r1, c0] += d
    return f, g


def record(seed, ni, nr):
    import wafo.markov as mk
    rng = np.random.RandomState(seed)
    ev = []
    for k in range(ni):
        n = int(rng.choice([3, 4, 5, 6, 9]))
        F = rng.randint(0, 7, size=(n, n)) * (rng.rand(n, n) < 0.7)
        Fc = np.triu(F, 1)
        for kind in (1, 11):
            for A in (F, Fc):
                f = A.astype(float) if rng.rand() < .5 else A
                nt = vp.call(mk.cmat2nt, f, kind)
                ev.append(dict(op='cmat2nt', F=vp.ints(A), k=kind, r=mat(nt)))
                ev.append(dict(op='nt2cmat', F=vp.ints(A), k=kind, r=mat(vp.call(mk.nt2cmat, f, kind))))
                ev.append(dict(op='same', what='input-unchanged', a=bool(np.array_equal(f, A)), b=True))
            out = vp.call(lambda: mk.nt2cmat(mk.cmat2nt(Fc, kind), kind))
            ev.append(dict(op='same', what='round-trip', a=mat(out), b=dict(kind='matrix', v=vp.ints(Fc))))
        G = triangle(rng, n, 0, 7)
        ev.append(dict(op='fr2nt', F=vp.ints(G), r=mat(vp.call(mk.fr2nt, G))))
        ev.append(dict(op='fr2nt', F=vp.ints(F), r=mat(vp.call(mk.fr2nt, F))))
        for kind in (0, 1):
            ev.append(dict(op='nt2fr', F=vp.ints(F), k=kind, r=mat(vp.call(mk.nt2fr, F, kind))))
    for k in range(nr):
        n = int(rng.choice([3, 4, 5, 6]))
        scale = float(rng.choice([1.0, 2.0**-30, 1e-3, 2.0**20]))
        if k % 2:
            f = triangle(rng, n) * scale
            g, args = f, (f,)
        else:
            f, g = reversible_pair(rng, n)
            f, g = f * scale, g * scale
            args = (f, g)
        keep = [a.copy() for a in args]
        out = vp.call(mk.mctp2rfc, *args)
        ev.append(dict(op='mctp2rfc', fm=vp.reals(f / scale), fM=vp.reals(g / scale),
                       r=vp.res_reals((out[0], out[1] / scale) if out[0] == 'ok' else out, 2)))
        ev.append(dict(op='same', what='input-unchanged',
                       a=all(np.array_equal(a, b) for a, b in zip(args, keep)), b=True))
        if k % 2 and scale > 1e-6:
            # a chain is a fixed point of the inversion of its own rainflow matrix
            rf = vp.call(mk.mctp2rfc, f)
            if rf[0] == 'ok':
                frfc = np.fliplr(rf[1])
                o = vp.call(mk.iter_, frfc, np.fliplr(f), 3)
                a = vp.res_reals((o[0], o[1][0] / scale) if o[0] == 'ok' else o, 2)
                b = vp.res_reals((o[0], o[1][1] / scale) if o[0] == 'ok' else o, 2)
                ev.append(dict(op='near', what='chain-is-fixed-point', a=a, b=vp.res_reals(('ok', np.fliplr(f) / scale), 2)))
                ev.append(dict(op='near', what='rainflow-of-fixed-point', a=b, b=vp.res_reals(('ok', frfc / scale), 2)))
    return ev


def replay(behaviours):
    import wafo.markov as mk
    out = []
    for b in behaviours:
        F = np.array(b['F'])
        for kind in (1, 11):
            r = mat(vp.call(mk.cmat2nt, F, kind))
            out.append((dict(op='replay', what='cmat2nt', F=b['F'], got=r), r == dict(kind='matrix', v=b['nt'])))
            r = mat(vp.call(mk.nt2cmat, np.array(b['nt']), kind))
            out.append((dict(op='replay', what='nt2cmat', F=b['nt'], got=r), r == dict(kind='matrix', v=b['F'])))
    return out


def run(R):
    cfg = ('CONSTANTS Size = 4\nMaxCycles = %d\nSPECIFICATION Spec\nINVARIANTS RoundTrip Crossings Total '
           'Monotone FrRoundTrip\n' % R.pick(3, 5))
    m = R.model('MarkovModel', cfg)
    R.replays(vp.drive(replay, m['prints']))
    R.check('MarkovTrace', vp.drive(record, R.seed, R.pick(80, 800), R.pick(60, 600)), shards=8)
