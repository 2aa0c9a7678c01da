"""C27 maximum likelihood and maximum product of spacings estimates."""
import itertools
import numpy as np
import vp

NAN = float('nan')
# name, shapes that are drawn, what is held (by position: None is estimated)
CASES = [('norm', lambda u: (), [(None, None), (None, None), (0, None), (None, 1)]),
         ('gumbel_r', lambda u: (), [(None, None), (None, None), (0, None), (None, 1)]),
         ('rayleigh', lambda u: (), [(0, None)]), ('expon', lambda u: (), [(0, None)]),
         ('weibull_min', lambda u: (u(.9, 2.6),), [(None, 0, None), (None, 0, None), (1, 0, None), (None, 0, 1)]),
         ('truncrayleigh', lambda u: (u(.3, 2),), [(1, 0, None)]),
         ('genpareto', lambda u: (float(u(-.2, .3)),), [(1, 0, None), (None, 0, 1)]),
         ('genextreme', lambda u: (float(u(-.2, .25)),), [(1, None, None)]),
         ('lognorm', lambda u: (u(.4, .9),), [(1, 0, None), (None, 0, None)])]
SHAPE = {'weibull_min': 'c', 'truncrayleigh': 'c', 'genpareto': 'c', 'genextreme': 'c', 'lognorm': 's'}


def sample(rng, case=None):
    from wafo.stats import distributions as D
    u = lambda a, b: float(np.round(a + (b - a) * rng.rand(), 2))
    name, sh, held = CASES[int(rng.randint(len(CASES)))] if case is None else CASES[case]
    shapes = sh(u)
    loc = u(-2, 2) if rng.rand() < .7 else 0.
    scale = u(.5, 3)
    th = shapes + (loc, scale)
    x = np.round(getattr(D, name).rvs(*th, size=int(rng.randint(20, 41)), random_state=int(rng.randint(10**6))), 3)
    x = x[x > loc] if name in ('rayleigh', 'expon', 'weibull_min', 'truncrayleigh', 'genpareto', 'lognorm') else x
    if rng.rand() < .25:
        x[1] = x[0]         # a tie
    h = held[int(rng.randint(len(held)))]
    fixed = {i: th[i] for i, v in enumerate(h) if v is not None}
    return name, th, x, fixed


def keywords(rng, name, th, fixed):
    """Some way to name the parameters that are held."""
    m = len(th)
    kw = {}
    for i, v in fixed.items():
        names = ['floc', 'fscale'][i - m + 2:i - m + 3] if i >= m - 2 else ['f%d' % i, 'f' + SHAPE[name], 'fix_' + SHAPE[name]]
        kw[names[int(rng.randint(len(names)))]] = v
    return kw


def fit_event(name, p, fixed, alpha, mps, search, start=None):
    from scipy.special import ndtri
    m = len(p.par)
    free = [i for i in range(m) if i not in fixed]
    given = [fixed.get(i, p.par[i] if start is None else start[i]) for i in range(m)]
    fix = p.par_fix if p.par_fix is not None else [NAN] * m
    return dict(op='fit', kind='ok', name=name, th=vp.reals(p.par), x=vp.reals(np.sort(p.data)), mps=mps, free=[i + 1 for i in free], given=vp.reals(given), fix=vp.reals(fix),
                LL=vp.real(float(p.LLmax)), LPS=vp.real(float(p.LPSmax)), pvalue=vp.real(float(p.pvalue)), cov=[vp.reals(r) for r in p.par_cov], search=bool(search), alpha=vp.real(alpha),
                z=vp.real(float(-ndtri(alpha / 2))), lower=vp.reals(p.par_lower), upper=vp.reals(p.par_upper))


# the estimate that fit2 starts from does not look at what is held: here it leaves out an observation, and the search never gets it back
STUCK = [-1.437, -1.395, -1.315, -1.243, -1.231, -1.157, -.803, -.394, -.258, -.211, -.156, -.133, -.075, .073, .282, .41, 1.192, 1.691, 2.134, 2.162, 2.188, 2.863, 3.019, 4.933, 14.97]


def record(seed, count):
    from wafo.stats import distributions as D
    rng = np.random.RandomState(seed)
    with np.errstate(all='ignore'):
        o = vp.call(lambda: D.genpareto.fit2(STUCK, floc=-1.47, fscale=2.49))
    ev = [dict(fit_event('genpareto', o[1], {1: -1.47, 2: 2.49}, .05, False, True) if o[0] == 'ok' else dict(op='fit', kind=str(o[1])[:60], name='genpareto', th=[], x=[], free=[]), case='start-outside')]
    for k in range(count):
        name, th, x, fixed = sample(rng, k % len(CASES))
        dist = getattr(D, name)
        kw = keywords(rng, name, th, fixed)
        mps = bool(rng.rand() < .5)
        if mps or rng.rand() < .5:
            kw['method'] = 'mps' if mps else 'ml'
        alpha = float(rng.choice([.05, .1, .32]))
        if alpha != .05:
            kw['alpha'] = alpha
        search = not rng.rand() < .2
        start = None
        args = ()
        if not search:
            kw['search'] = False
            start = [v if i in fixed else v + .05 for i, v in enumerate(th)]
            if name in ('rayleigh', 'expon', 'weibull_min', 'truncrayleigh', 'genpareto', 'lognorm'):
                start[-2] = th[-2]
            args = tuple(start[:-2])
            kw.update(loc=start[-2], scale=start[-1])
            if rng.rand() < .4:
                args, kw = tuple(start), {q: v for q, v in kw.items() if q not in ('loc', 'scale')}
        elif name in ('genpareto', 'genextreme'):
            args = tuple(th)    # a start where all data have positive density (see STUCK)
        elif rng.rand() < .4:
            args = tuple(th)[:int(rng.randint(len(th) + 1))]
        given = x.copy() if rng.rand() < .7 else x.tolist()
        shape = np.reshape(given, (2, -1)) if len(x) % 2 == 0 and rng.rand() < .3 else given
        before = np.array(given)
        opt = {} if rng.rand() < .7 or not search else dict(optimizer=['fmin_powell', 'powell'][int(rng.randint(2))])
        with np.errstate(all='ignore'):
            o = vp.call(lambda: dist.fit2(shape, *args, **dict(kw, **opt)))
        if o[0] != 'ok':
            ev.append(dict(op='fit', kind=str(o[1])[:80], name=name, th=vp.reals(th), x=vp.reals(x), free=[], args=[vp.reals(args), sorted(kw)]))
            continue
        p = o[1]
        ev.append(fit_event(name, p, fixed, alpha, mps, search, start))
        ev.append(dict(op='same', what='data-unchanged', a=vp.reals(before), b=vp.reals(np.ravel(given))))
        # the law that comes with the estimate
        y = x[:3]
        ev.append(dict(op='same', what='frozen', a=vp.reals(np.r_[p.cdf(y), p.sf(y), p.pdf(y)]), b=vp.reals(np.r_[dist.cdf(y, *p.par), dist.sf(y, *p.par), dist.pdf(y, *p.par)])))
        if k % 3 == 0:
            kw1 = {q: v for q, v in kw.items() if q not in ('alpha', 'search')}
            if search:
                o = vp.call(lambda: dist.fit(np.ravel(shape), *args, **dict(kw1, **opt)) if hasattr(dist, 'fit1') is False else dist.fit1(np.ravel(shape), *args, **dict(kw1, **opt)))
                ev.append(dict(op='near', what='fit1', a=vp.reals(o[1]) if o[0] == 'ok' else [], b=vp.reals(p.par), kind='ok' if o[0] == 'ok' else str(o[1])[:60]))
            # a second estimate from the same object, with something else held
            was = list(p.par)
            again = {'floc': was[-2]} if rng.rand() < .4 else {}
            o = vp.call(lambda: (p.fit(*was, search=False, **again), p)[1])
            if o[0] == 'ok':
                ev.append(fit_event(name, p, {len(th) - 2: was[-2]} if again else {}, alpha, mps, False, was))
            else:
                ev.append(dict(op='fit', kind=str(o[1])[:80], name=name, th=vp.reals(th), x=vp.reals(x), free=[]))
        bad = [(dict(optimizer='nosuch'), (), 'ValueError'), (dict(floc=0., fscale=1., **({'f0': 1.} if len(th) == 3 else {})), (), 'ValueError'), (dict(), tuple(th) + (1.,), 'TypeError'), (dict(nosuch=1), (), 'TypeError')]
        if len(th) == 3:
            bad.append((dict(f0=1., **{'f' + SHAPE[name]: 1.}), (), 'ValueError'))
        b = bad[int(rng.randint(len(bad)))]
        o = vp.call(lambda: dist.fit2(x, *b[1], **b[0]))
        ev.append(dict(op='refuse', want=b[2], kind=str(o[1]).split(':')[0] if o[0] != 'ok' else 'ok', call=str(b[0])))
    return ev


def replay(prints):
    """Requests, and estimates in closed form."""
    from wafo.stats import distributions as D
    res = []
    y = np.array([.7, 1.3, 2.1, 3.4, 3.9]) * 1000
    digit = {'f0': 1, 'fc': 2, 'fix_c': 3}
    index = {'floc': 2, 'fscale': 3}
    for p in prints:
        if p['kind'] == 'request':
            kw = {w: (10. + digit[w] if w in digit else 10. * index[w] + 4 if w in index else 400. if w == 'loc' else 600.) for w in p['names']}
            args = tuple(100. * (i + 1) for i in range(p['nargs']))
            o = vp.call(lambda: D.weibull_min.fit2(y, *args, search=False, **kw))
            if p['refusal'] != 'none':
                ok, got = o[0] != 'ok' and str(o[1]).split(':')[0] == p['refusal'], str(o[1])[:60]
            elif o[0] != 'ok':
                ok, got = False, str(o[1])[:60]
            else:
                fix = o[1].par_fix if o[1].par_fix is not None else [NAN] * 3
                ok = all((w == 0 or w == g) and (f == g if h else np.isnan(f)) for w, g, h, f in zip(p['par'], o[1].par, p['held'], fix))
                got = [str(o[1].par), str(fix)]
            res.append((dict(op='replay', p=p, got=got), bool(ok)))
            continue
        x = np.array(p['x'], float)
        q = p['n'] / float(p['d'])
        scale = p['held'] == 'loc'
        want = np.sqrt(q) if scale and p['law'] != 'expon' else q
        o = vp.call(lambda: getattr(D, p['law']).fit2(x, **({'floc': 0.} if scale else {'fscale': 1.})))
        g = o[1].par[-1 if scale else -2] if o[0] == 'ok' else NAN
        res.append((dict(op='replay', p=p, got=str(o[1])[:60] if o[0] != 'ok' else float(g)), bool(o[0] == 'ok' and abs(g - want) < 2e-3 * (1 + want))))
    return res


def run(R):
    m = R.model('FitModel', 'CONSTANTS Top = %d\nN = 3\nSPECIFICATION Spec\nINVARIANTS Best Unique Obeyed\n' % R.pick(3, 7))
    R.replays(vp.drive(replay, m['prints']))
    R.check('FitTrace', vp.drive(record, R.seed, R.pick(45, 1500)))
