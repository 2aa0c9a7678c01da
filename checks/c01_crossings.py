"""C01 level crossings."""
import numpy as np
import vp

KINDS = ['all', 'u', 'd', 'dw', 'uw', 'tw', 'cw']
METHODS = ['clib', 'numba']


def signals(rng, n_long, n_short):
    """Integer signals with many plateaus, touches and exact hits of the level."""
    for k in range(n_short):
        n = int(rng.randint(1, 30))
        a = int(rng.choice([1, 2, 3, 10]))
        yield rng.randint(-a, a + 1, size=n)
    for k in range(n_long):
        n = int(rng.choice([50, 100, 257, 400]))
        kind = k % 4
        if kind == 0:      # random walk
            x = np.cumsum(rng.randint(-1, 2, size=n))
        elif kind == 1:    # sea like
            t = np.arange(n)
            x = np.round(200 * np.sin(t * rng.uniform(0.02, 1.2)) + 50 * rng.randn(n)).astype(int)
        elif kind == 2:    # long plateaus
            x = np.repeat(rng.randint(-1, 2, size=n // 5 + 1), 5)[:n]
        else:
            x = rng.randint(-1000, 1000, size=n)
        yield x


def forms(x, scale, rng):
    """The same signal presented in different memory layouts and types."""
    f = x * scale
    yield 'float', f
    c = rng.randint(0, 5)
    if c == 0:
        yield 'list', [float(q) for q in f]
    elif c == 1:
        b = np.zeros(2 * len(f)); b[::2] = f
        yield 'strided', b[::2]
    elif c == 2:
        yield 'column', f.reshape(-1, 1)
    elif c == 3 and scale == 1.0:
        yield 'int', x.astype(int)
    elif c == 4:
        yield 'float32', f.astype(np.float32)


def record(seed, nl, ns):
    import wafo.misc as wm
    rng = np.random.RandomState(seed)
    ev = []
    for x in signals(rng, nl, ns):
        vs = {0, int(x[rng.randint(len(x))]), int(np.round(x.mean()))}
        if rng.rand() < 0.2:
            vs.add(int(x.max()) + 1)
        for v in sorted(vs):
            scale = float(rng.choice([1.0, 0.5, 1024.0, 2.0**-20]))
            for name, f in forms(x, scale, rng):
                before = np.array(f, copy=True)
                for kind in KINDS:
                    m = METHODS[rng.randint(2)]
                    vp.pending('findcross %s %s %s' % (x.tolist(), v, kind))
                    r = vp.res_ints(vp.call(wm.findcross, f, v * scale,
                                            None if kind == 'all' else kind, m))
                    ev.append(dict(op='findcross', x=x.tolist(), v=v, kindarg=kind, method=m,
                                   form=name, r=r))
                ev.append(dict(op='same', what='input unchanged',
                               a=np.asarray(f).tolist() == before.tolist(), b=True))
            # methods agree
            f = x * scale
            ra = [vp.res_ints(vp.call(wm.findcross, f, v * scale, None, m)) for m in METHODS]
            ev.append(dict(op='same', what='clib=numba', x=x.tolist(), v=v, a=ra[0], b=ra[1]))
            # crossing times on an irregular grid
            if len(x) > 1:
                t = np.cumsum(rng.choice([0.25, 0.5, 1.0, 3.0], size=len(x))) - rng.randint(0, 50)
                ind = vp.call(wm.findcross, f, v * scale)
                if ind[0] == 'ok' and len(ind[1]) and len(x) <= 100:
                    r = vp.res_reals(vp.call(wm.ecross, t, f, ind[1], v * scale))
                    ev.append(dict(op='ecross', t=vp.reals(t), f=vp.reals(f), v=vp.real(v * scale),
                                   ind=vp.ints(ind[1]), r=r))
    return ev


def replay(behaviours, seed):
    """Behaviours of the stream machine stepped through the real function."""
    import wafo.misc as wm
    rng = np.random.RandomState(seed)
    out = []
    for b in behaviours:
        s = np.array(b['s'])
        mag = rng.choice([1.0, 0.001, 1e6, 3.7], size=len(s))
        lev = float(rng.choice([0.0, 1.5, -2.0]))
        x = lev + s * mag
        x[s == 0] = lev
        if np.any(np.sign(x - lev) != s):
            x = lev + s
        for kind in KINDS:
            for m in METHODS:
                r = vp.res_ints(vp.call(wm.findcross, x, lev, None if kind == 'all' else kind, m))
                if r != dict(kind='ints', v=b[kind]):
                    out.append((dict(op='replay', s=b['s'], x=x.tolist(), level=lev, kindarg=kind, method=m,
                                     want=b[kind], got=r), False))
                else:
                    out.append((None, True))
    return out


def run(R):
    cfg = ('CONSTANT MaxLen = %d\nSPECIFICATION MSpec\n'
           'INVARIANTS MatchesDefinition Alternates Partition Mirror Waves\n' % R.pick(7, 9))
    m = R.model('Crossing', cfg)
    R.replays(vp.drive(replay, m['prints'], R.seed))
    ev = vp.drive(record, R.seed, R.pick(40, 400), R.pick(80, 1000))
    R.check('CrossingTrace', ev)
