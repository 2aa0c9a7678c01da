"""C26 probability laws."""
import numpy as np
import vp

FAMILIES = ['norm', 'expon', 'rayleigh', 'weibull_min', 'gumbel_r', 'genpareto', 'genextreme', 'truncrayleigh', 'exponweib', 'burr', 'genexpon', 'lognorm']


def shapes(rng, name):
    u = lambda a, b: float(np.round(a + (b - a) * rng.rand(), 2))
    return {'weibull_min': lambda: (u(.6, 3.5),), 'genpareto': lambda: (float(rng.choice([0, -.3, .2, .4, -.1])),), 'genextreme': lambda: (float(rng.choice([0, -.3, .2, .4, -.1])),),
            'truncrayleigh': lambda: (float(rng.choice([0, .1, .5, 1, 2.5, 5])),), 'exponweib': lambda: (u(.6, 2), u(.8, 3)), 'burr': lambda: (u(1.5, 4), u(.6, 2)),
            'genexpon': lambda: (u(.4, 2), u(.3, 2), u(.3, 2)), 'lognorm': lambda: (u(.3, 1.2),)}.get(name, tuple)()


def record(seed, count):
    from wafo.stats import distributions as D
    import wafo.stats as ws
    rng = np.random.RandomState(seed)
    ev = []
    for k in range(count):
        name = FAMILIES[int(rng.randint(len(FAMILIES)))] if k % 2 else 'truncrayleigh'
        dist = getattr(D if rng.rand() < .7 or not hasattr(ws, name) else ws, name)
        if dist.__class__.__module__.startswith('scipy') and not hasattr(dist, 'fit2'):
            dist = getattr(D, name)
        sh = shapes(rng, name)
        loc, scale = [(0., 1.), (float(np.round(rng.randn() * 2, 2)), float(np.round(.2 + 3 * rng.rand(), 2)))][int(rng.rand() < .7)]
        th = sh + (loc, scale)
        with np.errstate(all='ignore'):
            x = np.r_[dist.ppf(np.round(rng.rand(4), 3) * .99 + .005, *th), loc - scale * (3 if name in ('gumbel_r', 'genextreme') else 50), loc - .3 * scale, loc + 2.5 * scale]
        if name == 'truncrayleigh':
            x = np.r_[x, loc + 6 * scale, loc + 9 * scale]
        x = x[np.isfinite(x)]
        # not on the very edge of the support, where one rounding decides
        if name in ('genpareto', 'genextreme') and sh[0] != 0:
            x = x[np.abs(x - (loc + scale / abs(sh[0]) * (1 if (name == 'genextreme') == (sh[0] > 0) else -1))) > 1e-6]
        frozen = rng.rand() < .4
        rv = dist(*sh, loc=loc, scale=scale) if frozen else None
        F = (lambda m: getattr(rv, m)(x)) if frozen else (lambda m: getattr(dist, m)(x, *sh, loc=loc, scale=scale))
        e = dict(op='law', name=name, th=vp.reals(th), x=vp.reals(x), kind='ok')
        for m in ('cdf', 'sf', 'pdf', 'logpdf', 'logcdf', 'logsf'):
            with np.errstate(all='ignore'):
                o = vp.call(lambda: F(m))
            if o[0] != 'ok' or np.shape(o[1]) != x.shape:
                e['kind'] = str(o[1])[:60]
            e[m] = vp.reals(o[1]) if o[0] == 'ok' else []
        ev.append(e)
        q = np.round(np.r_[rng.rand(3) * .98 + .01], 4)
        o = vp.call(lambda: (dist.ppf(q, *th), dist.isf(q, *th)))
        ok = o[0] == 'ok'
        ev.append(dict(op='quantile', name=name, th=vp.reals(th), q=vp.reals(q), ppf=vp.reals(o[1][0]) if ok else [], isf=vp.reals(o[1][1]) if ok else [], kind='ok' if ok else str(o[1])[:60]))
        s = int(rng.randint(1000))
        o = vp.call(lambda: (dist.rvs(*th, size=4, random_state=s), dist.rvs(*th, size=4, random_state=np.random.RandomState(s))))
        ok = o[0] == 'ok'
        ev.append(dict(op='same', what='reproducible-samples', a=vp.reals(o[1][0]) if ok else [str(o[1])[:50]], b=vp.reals(o[1][1]) if ok else []))
        # moments of the truncated Rayleigh law
        c = float(rng.choice([0, .01, .2, .5, 1, 1.5, 3, 4]))
        many = rng.rand() < .3
        cc = np.array([c, 1.25]) if many else c
        o = vp.call(lambda: (D.truncrayleigh.stats(cc, loc=loc, scale=scale, moments='mvsk'), D.truncrayleigh.entropy(cc, loc, scale), [D.truncrayleigh.moment(j, c) for j in (1, 2, 3, 4)], D.truncrayleigh.mean(cc, loc, scale), D.truncrayleigh.var(cc, loc, scale)))
        ok = o[0] == 'ok'
        e = dict(op='moments', c=vp.real(c), loc=vp.real(loc), scale=vp.real(scale), kind='ok' if ok else str(o[1])[:60])
        if ok:
            g = lambda v: vp.real(float(np.ravel(v)[0]))
            st = o[1][0]
            e.update(mean=g(st[0]), vr=g(st[1]), skew=g(st[2]), kurt=g(st[3]), entropy=g(o[1][1]), raw=vp.reals(o[1][2]))
            if k % 2:
                e.update(mean=g(o[1][3]), vr=g(o[1][4]))
        ev.append(e)
        # number of successes
        n = int(rng.randint(1, 9))
        p = np.round(rng.rand(n), 3)
        if rng.rand() < .4:
            p = rng.choice([0, 1, .5, .25], n)
        x2 = rng.permutation(np.arange(-3, 2 * n + 4))[:6]
        x = x2 / 2.
        if rng.rand() < .3:
            x2 = x2[x2 % 2 == 0]
            x = x2 // 2
        q = np.round(rng.rand(3) * .98 + .01, 4)
        P = p.tolist() if rng.rand() < .5 else p
        s = int(rng.randint(1000))

        def go():
            d = D.pbinom(P)
            return d.pmf(x), d.cdf(x), d.sf(x), d.ppf(q), d.rvs(size=5, random_state=s), d.stats(moments='mvsk' if p.dot(1 - p) > 0 else 'mv'), d.mean(), d.var()
        o = vp.call(go)
        ok = o[0] == 'ok'
        e = dict(op='trials', p=vp.reals(p), x2=[int(v) for v in x2], q=vp.reals(q), kind='ok' if ok else str(o[1])[:60])
        if ok:
            a, b, c_, i, r, st, me, va = o[1]
            st = tuple(st) + (0, 0)
            e.update(pmf=vp.reals(a), cdf=vp.reals(b), sf=vp.reals(c_), ppf=[int(v) for v in i], rvs=[int(v) for v in r], mean=vp.real(float(me if k % 2 else st[0])), vr=vp.real(float(va if k % 2 else st[1])), skew=vp.real(float(st[2])), kurt=vp.real(float(st[3])))
        ev.append(e)
        if k % 8 == 0:
            o = vp.call(lambda: D.pbinom([.5, float(rng.choice([-.1, 1.01, 2]))]))
            ev.append(dict(op='refuse', kind=str(o[1]).split(':')[0] if o[0] != 'ok' else 'ok'))
    return ev


def replay(prints):
    from wafo.stats import distributions as D
    res = []
    for p in prints:
        w = np.array(p['w'], float)
        w /= w.sum()
        o = vp.call(lambda: D.pbinom(np.array(p['p']) / 4.))
        k = np.arange(len(w))
        g = vp.call(lambda: (o[1].pmf(k), o[1].cdf(k), o[1].sf(k)))
        ok = g[0] == 'ok' and np.allclose(g[1][0], w, atol=1e-12) and np.allclose(g[1][1], w.cumsum(), atol=1e-12) and np.allclose(g[1][2], 1 - w.cumsum(), atol=1e-12)
        res.append((dict(op='replay', p=p), bool(ok)))
    return res


def run(R):
    m = R.model('TrialsModel', 'CONSTANTS MaxTrials = %d\nD = 4\nSPECIFICATION Spec\nINVARIANTS Total Mean Unimodal\n' % R.pick(4, 5))
    R.replays(vp.drive(replay, m['prints']))
    R.check('LawsTrace', vp.drive(record, R.seed, R.pick(60, 900)))
