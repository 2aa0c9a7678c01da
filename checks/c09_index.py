"""C09 bits, indices and coordinates."""
import numpy as np
import vp


def num(out):
    if out[0] != 'ok':
        return 'error ' + str(out[1])
    try:
        return int(out[1])
    except Exception:
        return 'not a number'


def record(seed, count):
    import wafo.bitwise as bw
    import wafo.misc as wm
    rng = np.random.RandomState(seed)
    ev = []
    for k in range(count):
        n = int(rng.randint(1, 6))
        i = rng.randint(0, 2**int(rng.choice([4, 8, 16, 29])), size=n)
        b = rng.randint(0, 30, size=n)
        v = rng.randint(0, 2, size=n)
        ev.append(dict(op='getbit', i=vp.ints(i), b=vp.ints(b), r=vp.res_ints(vp.call(bw.getbit, i, b))))
        ev.append(dict(op='setbit', i=vp.ints(i), b=vp.ints(b), v=vp.ints(v), r=vp.res_ints(vp.call(bw.setbit, i, b, v))))
        bs = int(b[0])
        ev.append(dict(op='setbit', i=vp.ints(i), b=[bs] * n, v=[1] * n, r=vp.res_ints(vp.call(bw.setbit, i, bs))))
        ev.append(dict(op='setbit', i=vp.ints(i), b=[bs] * n, v=[0] * n, r=vp.res_ints(vp.call(bw.setbit, i, bs, 0))))
        nb = int(rng.randint(1, 30))
        ev.append(dict(op='getbits', i=int(i[0]), n=nb, r=vp.res_ints(vp.call(bw.getbits, int(i[0]), nb))))
        ev.append(dict(op='getbits', i=int(i[0]), n=8, r=vp.res_ints(vp.call(bw.getbits, int(i[0])))))
        bl = [int(q) for q in rng.randint(0, 2, size=nb)]
        ev.append(dict(op='setbits', bits=bl, r=num(vp.call(bw.setbits, bl))))
        ev.append(dict(op='same', what='input-unchanged', a=[vp.ints(i), vp.ints(b)], b=[vp.ints(i.copy()), vp.ints(b.copy())]))
        # indices
        shape = tuple(int(q) for q in rng.randint(1, 6, size=rng.randint(1, 5)))
        order = ['C', 'F'][rng.randint(2)]
        subs = np.array([[rng.randint(s) for s in shape] for _ in range(n)])
        ev.append(dict(op='sub2index', shape=list(shape), order=order, subs=vp.ints(subs),
                       r=vp.res_ints(vp.call(wm.sub2index, shape, *subs.T, order=order))))
        ind = rng.randint(0, int(np.prod(shape)), size=n)
        out = vp.call(wm.index2sub, shape, ind, order)
        ev.append(dict(op='index2sub', shape=list(shape), order=order, ind=vp.ints(ind),
                       subs=vp.ints(np.array(out[1]).T) if out[0] == 'ok' else [[] for _ in ind]))
        # rotations
        ang = [float(q) for q in rng.choice([0, 30, -45, 90, 180, 10.5, 270, 123.4, -7.25], size=3)]
        if rng.rand() < .3:
            ang[rng.randint(3)] = 0.0
        ra = dict(h=vp.real(ang[0]), p=vp.real(ang[1]), q=vp.real(ang[2]))
        ev.append(dict(op='rotation_matrix', r=vp.res_reals(vp.call(wm.rotation_matrix, *ang), 2), **ra))
        P = rng.randint(-5, 6, size=(3, n)).astype(float)
        out = vp.call(wm.rotate, P[0], P[1], P[2], *ang)
        ev.append(dict(op='rotate', pts=vp.reals(P.T), r=vp.res_reals((out[0], np.array(out[1])) if out[0] == 'ok' else out, 2), **ra))
        x, y = [float(q) for q in rng.choice([0, 1, -1, 3.5, -2.25, 1e3, 1e-3], size=2)]
        out = vp.call(wm.rotate_2d, x, y, ang[0])
        ev.append(dict(op='rotate_2d', x=vp.real(x), y=vp.real(y), a=vp.real(ang[0]), r=vp.res_reals(out)))
        if x or y:
            out = vp.call(wm.cart2polar, x, y)
            bk = vp.res_reals(vp.call(wm.polar2cart, *out[1])) if out[0] == 'ok' else dict(kind='error')
            ev.append(dict(op='polar', x=vp.real(x), y=vp.real(y), r=vp.res_reals(out), back=bk.get('v', [])))
        d = int(rng.randint(1, 4))
        a, c = rng.randint(-9, 10, size=d) * 1.0, rng.randint(-9, 10, size=d) * 0.5
        m = int(rng.randint(1, 9))
        ev.append(dict(op='spaceline', a=vp.reals(a), b=vp.reals(c), n=m, r=vp.res_reals(vp.call(wm.spaceline, a, c, m), 2)))
        q = int(rng.choice([1, 2, 3, 4, 5, 31, 32, 33, 1000, 1024, 65535, 65536, 2**20 + 1]))
        ev.append(dict(op='nextpow2', x=q, r=num(vp.call(wm.nextpow2, q))))
        ev.append(dict(op='nextpow2', x=q, r=num(vp.call(wm.nextpow2, -float(q)))))
        L = int(rng.choice([2, 3, 4, 5, 8, 9, 16, 17]))
        ev.append(dict(op='nextpow2', x=L, r=num(vp.call(wm.nextpow2, list(range(L))))))
        arr = rng.randint(-5, 6, size=rng.randint(1, 12))
        m = int(rng.randint(1, len(arr) + 1))
        out = vp.call(wm.narg_smallest, arr, m)
        ev.append(dict(op='smallest', x=vp.ints(arr), n=m, r=vp.res_ints(out).get('v', [])))
        m = int(rng.randint(0, 4))
        out = vp.call(lambda: list(wm.lfind(arr.tolist(), int(arr[0]), m or None)))
        ev.append(dict(op='lfind', x=vp.ints(arr), y=int(arr[0]), n=m, r=out[1]))
    return ev


def replay(behaviours):
    import wafo.bitwise as bw
    out = []
    for b in behaviours:
        r = vp.call(bw.setbit, b['start'], b['b'], b['v'])
        g = vp.call(bw.getbits, int(r[1]), len(b['bits'])) if r[0] == 'ok' else r
        ok = num(r) == b['reg'] and vp.res_ints(g).get('v') == b['bits'] and \
            num(vp.call(bw.setbits, b['bits'])) == b['reg']
        out.append((dict(op='replay', got=num(r), **b), ok))
    return out


def run(R):
    m = R.model('HelpersModel', 'CONSTANTS Width = %d\nMaxOps = %d\nSPECIFICATION Spec\n'
                'INVARIANTS ReadsBack Packs Bijective\n' % R.pick((4, 2), (5, 3)))
    R.replays(vp.drive(replay, m['prints']))
    R.check('HelpersTrace', vp.drive(record, R.seed, R.pick(150, 2000)))
