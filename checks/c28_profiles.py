"""C28 profile likelihood and the intervals read off it."""
import numpy as np
import scipy.stats as ss
import vp
from c27_fitting import CASES, sample, keywords

NAN = float('nan')


# the laws once more, from scipy or by hand: only to find the witnesses that the specification verifies
def logpdf(name, th, x):
    if name == 'truncrayleigh':
        z = (x - th[1]) / th[2]
        return np.where(z > 0, np.log(np.abs(z + th[0])) - z * (z + 2 * th[0]) / 2, -np.inf) - np.log(th[2])
    return getattr(ss, name).logpdf(x, *th)


def cdf(name, th, x):
    if name == 'truncrayleigh':
        z = np.maximum((x - th[1]) / th[2], 0)
        return -np.expm1(-z * (z + 2 * th[0]) / 2)
    return getattr(ss, name).cdf(x, *th)


def isf0(name, s, lsf):
    if name == 'truncrayleigh':
        return np.sqrt(s[0] ** 2 - 2 * lsf) - s[0]
    return getattr(ss, name).isf(np.exp(lsf), *s)


def link(name, th, i, x, lsf):
    m = len(th)
    z = (x - th[-2]) / th[-1]
    if i == m - 2:
        return x - th[-1] * isf0(name, th[:-2], lsf)
    if i == m - 1:
        return (x - th[-2]) / isf0(name, th[:-2], lsf)
    return np.log(-lsf) / np.log(z) if name == 'weibull_min' else -lsf / z - z / 2


def objective(name, th, x, mps):
    if th[-1] <= 0:
        return -np.inf
    if not mps:
        return float(np.sum(logpdf(name, th, x)))
    d = np.diff(np.r_[0, cdf(name, th, x), 1])
    tie = np.flatnonzero(np.diff(x) == 0)
    ld = np.log(np.maximum(d, 1e-300))
    ld[tie + 1] = logpdf(name, th, x[tie])
    return float(np.sum(ld))


def witness(name, th, i, held, x, mps, put):
    from scipy.optimize import minimize
    t = np.array(th, float)
    rest = [j for j in range(len(t)) if j not in held and j != i]

    def full(v):
        u = t.copy()
        u[rest] = v
        u[i] = put(u)
        return u
    if not rest:
        return full(t[rest])
    def f(v):
        with np.errstate(all='ignore'):
            y = -objective(name, full(v), x, mps)
        return y if np.isfinite(y) else 1e30
    v = t[rest]
    if f(v) >= 1e30:
        rng = np.random.RandomState(0)
        v = min((v + rng.randn(len(v)) * r * np.maximum(np.abs(v), 1) for r in (.1, .2, .4, .8) for _ in range(40)), key=f)
    for _ in range(3):
        v = minimize(f, v, method='Nelder-Mead', options=dict(xatol=1e-9, fatol=1e-11, maxiter=4000)).x
    return full(v)


LINKED = {'rayleigh': [1], 'expon': [1], 'gumbel_r': [0, 1], 'weibull_min': [0, 2], 'truncrayleigh': [2], 'genpareto': [2], 'genextreme': [1, 2]}


def profile_event(rng, name, th0, x, fixed, case):
    from wafo.stats import distributions as D
    dist = getattr(D, name)
    kw = keywords(rng, name, th0, fixed)
    mps = bool(rng.rand() < .4)
    if mps:
        kw['method'] = 'mps'
    p = dist.fit2(x, *th0, **kw)
    th = np.array(p.par, float)
    xs = np.sort(x)
    free = [i for i in range(len(th)) if i not in fixed]
    what = ['par', 'quantile', 'prob'][case % 3]
    can = [i for i in free if what == 'par' or i in LINKED.get(name, [])]
    if not can:
        what, can = 'par', free
    i = can[int(rng.randint(len(can)))]
    alpha = float(rng.choice([.05, .1, .2]))
    lsf = float(np.round(-.2 - 4 * rng.rand(), 2))
    q = float(np.round(p.isf(np.exp(lsf)), 2))
    if q <= th[-2] and name != 'gumbel_r' and name != 'genextreme':
        q = float(th[-2] + .5 * th[-1])
    # a parameter that hardly moves the quantile is no way to hold it
    zq = abs(isf0(name, th[:-2], float(p.logsf(q)) if what == 'quantile' else lsf)) if what != 'par' else 9
    if (i == len(th) - 1 and zq < (.5 if what == 'quantile' else 1.2)) or (what != 'par' and i < len(th) - 2 and not (lsf < -2.5 and float(p.logsf(q)) < -2.5)):
        what = 'par'
    own = {} if rng.rand() < .5 else dict(alpha=float(rng.choice([.01, .05])))
    if rng.rand() < .3:
        own['n'] = int(rng.choice([60, 150]))
    def go():
        with np.errstate(all='ignore'):
            if what == 'par':
                pr = p.profile(i=i, **own)
            elif what == 'quantile':
                pr = p.profile_quantile(q, i=i, **own)
            else:
                pr = p.profile_probability(lsf, i=i, **own)
            return pr, pr.get_bounds(alpha=alpha)
    o = vp.call(go)
    e = dict(op='profile', kind='ok' if o[0] == 'ok' else str(o[1])[:80], name=name, th=vp.reals(th), x=vp.reals(xs), mps=mps, what=what, i=i + 1, free=[j + 1 for j in free])
    if o[0] != 'ok':
        return [e]
    pr, b = o[1]
    at, val = np.asarray(pr.args, float), np.asarray(pr.data, float)
    if what == 'quantile':
        lsf = float(p.logsf(q))
        best, put = q, lambda a: (lambda u: link(name, u, i, a, lsf))
    elif what == 'prob':
        q = float(p.isf(np.exp(lsf)))
        best, put = lsf, lambda a: (lambda u: link(name, u, i, q, a))
    else:
        best, put = th[i], lambda a: (lambda u: a)
    # points where the profile is not too low
    near = np.flatnonzero(val > val.max() - 6)
    pick = near[np.unique(np.linspace(0, len(near) - 1, 3).astype(int))]
    w = lambda a: vp.reals(witness(name, th, i, list(fixed), xs, mps, put(float(a))))
    se = np.sqrt(np.abs(np.diag(p.par_cov)))
    b = [float(v) if v is not None else NAN for v in b]
    e.update(arg=vp.reals(at[pick]), data=vp.reals(val[pick]), w=[w(a) for a in at[pick]], bounds=vp.reals(b), wb=[w(a) for a in b] if np.all(np.isfinite(b)) else [], se=vp.reals(se),
             lsf=vp.real(lsf), q=vp.real(q), chi=vp.real(float(ss.chi2.isf(alpha, 1))), alpha=vp.real(alpha), top=vp.real(float(pr.profile_max)), best=vp.real(float(best)), increasing=bool(np.all(np.diff(at) > 0)), strict=True)
    out = [e]
    if own == {} and alpha >= .05:
        f = {'quantile': lambda: p.ci_quantile(q, alpha=alpha, i=i), 'prob': lambda: p.ci_sf(float(np.exp(lsf)), alpha=alpha, i=i)}.get(what)
        if f is not None:
            with np.errstate(all='ignore'):
                o = vp.call(f)
            got = np.ravel(o[1]) if o[0] == 'ok' else []
            if what == 'prob':      # probabilities, in either order
                b = np.sort(np.exp(b))
                got = np.sort(got)
            out.append(dict(op='near', what='ci', a=vp.reals(got), b=vp.reals(b), kind='ok' if o[0] == 'ok' else str(o[1])[:60]))
    held = sorted(set(range(len(th))) - set(free))
    if held:
        o = vp.call(lambda: p.profile(i=held[0]))
        out.append(dict(op='refuse', want='IndexError', kind=str(o[1]).split(':')[0] if o[0] != 'ok' else 'ok'))
    return out


def link_events(rng, count):
    from wafo.stats import estimation as E
    u = lambda a, b: float(np.round(a + (b - a) * rng.rand(), 2))
    draw = {'expon': lambda: (), 'weibull_min': lambda: (u(.6, 3),), 'genpareto': lambda: (float(rng.choice([-.2, .3])) if rng.rand() < .7 else 0.,), 'gumbel_r': lambda: (), 'rayleigh': lambda: (),
            'genextreme': lambda: (float(rng.choice([-.2, .3])) if rng.rand() < .7 else 0.,), 'truncrayleigh': lambda: (u(.2, 2.5),), 'exponweib': lambda: (u(.7, 2), u(.8, 2.5)), 'burr': lambda: (u(1.5, 4), u(.7, 2)), 'genexpon': lambda: (u(.4, 2), u(.3, 2), u(.3, 2))}
    from wafo.stats import distributions as D
    ev = []
    for k in range(count):
        name = sorted(draw)[k % len(draw)]
        th = np.array(draw[name]() + (u(-1, 1), u(.5, 3)))
        m = len(th)
        can = [i for i in range(m) if not (name in ('genpareto', 'genextreme') and i == 0) and not (name == 'genexpon' and i >= 2)]
        i = can[int(rng.randint(len(can)))]
        other = th.copy()
        other[i] = other[i] * (1.3 if i != m - 2 else 1) + (.2 if i == m - 2 else 0)
        x = float(np.round(getattr(D, name).isf(u(.05, .9), *other), 3))
        if not x > max(th[-2], other[-2]) + .02 and name not in ('gumbel_r', 'genextreme'):
            continue
        lsf = float(getattr(D, name).logsf(x, *other))
        if not -30 < lsf < -1e-3:
            continue
        key = 'trunclayleigh' if name == 'truncrayleigh' and 'truncrayleigh' not in E.LINKS else name
        with np.errstate(all='ignore'):
            o = vp.call(lambda: float(np.ravel(E.LINKS[key](x, lsf, th.copy(), i))[0]))
        ev.append(dict(op='link', name=name, th=vp.reals(th), i=i + 1, x=vp.real(x), lsf=vp.real(lsf), r=vp.real(o[1]) if o[0] == 'ok' else vp.real(NAN), kind='ok' if o[0] == 'ok' else str(o[1])[:60]))
    return ev


def record(seed, count):
    rng = np.random.RandomState(seed)
    ev = link_events(rng, 4 * count)
    for k in range(count):
        name, th, x, fixed = sample(rng, k % len(CASES))
        if name in ('genpareto', 'lognorm') or len(x) < 12:
            name, th, x, fixed = sample(rng, int(rng.randint(5)))
        ev += profile_event(rng, name, th, x, fixed, k)
    return ev


def replay(prints):
    """Intervals read off a profile known in points."""
    from wafo.stats import distributions as D
    res = []
    x = np.array([.3, .7, 1.1, 1.4, 2.2, 2.9])
    pr = D.rayleigh.fit2(x, floc=0).profile(i=1)
    alpha = float(ss.chi2.sf(5, 1))
    for p in prints:
        pr.args, pr.data = np.array(p['arg'], float), 7. - np.array(p['drop']) / 4.
        pr.profile_max, pr.pmin, pr.pmax = 7., float(p['arg'][0]), float(p['arg'][-1])
        o = vp.call(lambda: [float(v) for v in pr.get_bounds(alpha=alpha)])
        want = [p['lower'][0] / p['lower'][1], p['upper'][0] / p['upper'][1]]
        res.append((dict(op='replay', p=p, got=o[1]), bool(o[0] == 'ok' and np.allclose(o[1], want, atol=1e-7))))
    return res


def run(R):
    m = R.model('ProfileModel', 'CONSTANTS Drops = {0, 6, 14, 33}\nSteps = {1, 3}\nMaxLen = %d\nSPECIFICATION Spec\nINVARIANT Holds\n' % R.pick(4, 6))
    R.replays(vp.drive(replay, m['prints']))
    R.check('FitTrace', vp.drive(record, R.seed, R.pick(18, 400)))
