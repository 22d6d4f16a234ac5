"""C24: statistics compared with explicit loops over every output cell, with reduced cases and with period shifts."""
import itertools
import math
import numpy as np
from scipy.stats import t as student
from vlib.common import Scenario
from pySC.utils import stats

PID = 'C24'
RULE = ('arrays of one to three dimensions, axis none / one / several, no errors, equal, random, widely spread, zero and undefined errors, '
        'missing values, several periods, with and without small-sample correction. Distinct by data and options.')
ASSUMPTIONS = ['Data and errors are numpy arrays of equal shape; every averaged set has at least one valid value.',
               'The error definition is the documented one: weighted variance plus the inverse sum of weights, unbiased with the effective sample size (at least two), optionally with the Student correction.']

CONF = 0.5 * (1 + math.erf(1 / math.sqrt(2)))


def t_corr(n):
    return float(student.ppf(CONF, n - 1))


def cells(shape, axis):
    """Lists of index tuples averaged into each output cell, in output order."""
    nd = len(shape)
    if axis is None:
        axes = tuple(range(nd))
    else:
        axes = tuple(a % nd for a in (axis if isinstance(axis, tuple) else (axis,)))
    keep = [d for d in range(nd) if d not in axes]
    out = []
    for k in itertools.product(*[range(shape[d]) for d in keep]):
        lst = []
        for a in itertools.product(*[range(shape[d]) for d in axes]):
            idx = [0] * nd
            for d, i in zip(keep, k):
                idx[d] = i
            for d, i in zip(axes, a):
                idx[d] = i
            lst.append(tuple(idx))
        out.append(lst)
    return [shape[d] for d in keep], out


def neff(w):
    return max(2.0, sum(w) ** 2 / sum(x * x for x in w))


def linear(x, w, weighted, tv):
    m = sum(a * b for a, b in zip(x, w)) / sum(w)
    var = sum(b * (a - m) ** 2 for a, b in zip(x, w)) / sum(w) + (1 / sum(w) if weighted else 0)
    n = neff(w)
    err = math.sqrt(var * n / (n - 1)) * (t_corr(n) if tv else 1)
    return m, err, math.sqrt(sum(b * a * a for a, b in zip(x, w)) / sum(w))


def circular(x, w, weighted, tv, period):
    ph = [complex(math.cos(2 * math.pi * a / period), math.sin(2 * math.pi * a / period)) for a in x]
    c = sum(p * b for p, b in zip(ph, w)) / sum(w)
    mean = math.atan2(c.imag, c.real) * period / (2 * math.pi)
    var = sum(b * abs(p - c) ** 2 for p, b in zip(ph, w)) / sum(w) + (1 / sum(w) if weighted else 0)
    n = neff(w)
    e = math.sqrt(var * n / (n - 1)) / abs(c) if abs(c) > 0 else math.inf
    e *= (t_corr(n) if tv else 1)
    fold = [math.atan2(p.imag, p.real) * period / (2 * math.pi) for p in ph]
    return mean, (0.3 * period if e > math.pi / 2 else e * period / (2 * math.pi)), math.sqrt(sum(f * f for f in fold) / len(fold)), abs(c), e


def data(rng):
    nd = int(rng.integers(1, 4))
    shape = tuple(int(rng.integers(1, 7)) for _ in range(nd))
    if rng.random() < 0.1:
        shape = (1,) * nd
    axis = None
    if rng.random() < 0.75:
        k = int(rng.integers(1, nd + 1))
        ax = sorted(int(a) for a in rng.permutation(nd)[:k])
        if rng.random() < 0.2:
            ax = [a - nd for a in ax]
        axis = ax[0] if len(ax) == 1 and rng.random() < 0.8 else tuple(ax)
    x = rng.normal(0, float(10.0 ** rng.uniform(-3, 1)), shape) + float(rng.choice([0, 1, -3, 10]))
    ek = str(rng.choice(['none', 'equal', 'random', 'spread', 'zero', 'nan']))
    err = None
    if ek == 'equal':
        err = np.full(shape, float(10.0 ** rng.uniform(-2, 1)))
    elif ek != 'none':
        err = 10.0 ** rng.uniform(-1, 0.5, shape)
        if ek == 'spread':
            err = 10.0 ** rng.uniform(-4, 3, shape)
        flat = err.reshape(-1)
        if ek == 'zero':
            flat[int(rng.integers(len(flat)))] = 0
        if ek == 'nan':
            flat[int(rng.integers(len(flat)))] = np.nan
    return x, err, axis, ek


def definitions(ctx):
    rng = ctx.rng
    x, err, axis, ek = data(rng)
    period = float(rng.choice([2 * np.pi, 360.0, 1.0, 0.37, 20.0]))
    tv = bool(rng.random() < 0.5)
    nan = bool(rng.random() < 0.4) and x.size > 1
    out_shape, groups = cells(x.shape, axis)
    if nan:
        mask = rng.random(x.shape) < 0.3
        for g in groups:
            if all(mask[i] for i in g):
                mask[g[int(rng.integers(len(g)))]] = False
        x = np.where(mask, np.nan, x)
        if ek in ('nan', 'zero') and err is not None:     # an invalid error of a valid value
            bad = np.nan if ek == 'nan' else 0.0
            good = np.argwhere(~mask)
            err = 10.0 ** rng.uniform(-1, 0.5, x.shape)
            err[tuple(good[int(rng.integers(len(good)))])] = bad
    use = err is not None and ek not in ('zero', 'nan')
    kx, ke = x.copy(), None if err is None else err.copy()
    pre = 'nan' if nan else ''
    f = {k: getattr(stats, k) for k in dir(stats) if callable(getattr(stats, k))}
    kw = dict(errors=err, axis=axis)
    got = dict(mean=f[f'weighted_{pre}mean'](x, **kw), rms=f[f'weighted_{pre}rms'](x, **kw),
               cmean=f[f'circular_{pre}mean'](x, period=period, **kw), cerr=f[f'circular_{pre}error'](x, period=period, t_value_corr=tv, **kw))
    if not nan:
        got['err'] = stats.weighted_error(x, t_value_corr=tv, **kw)
    else:
        got['err'] = stats.weighted_error(np.ma.array(x, mask=np.isnan(x)), t_value_corr=tv, axis=axis,
                                          errors=None if err is None else np.ma.array(err, mask=np.isnan(x)))
    if not nan and err is None:
        got['prms'] = stats.rms(x, axis=axis)
        got['crms'] = stats.circular_rms(x, period=period, axis=axis)
    ctx.check(np.array_equal(x, kx, equal_nan=True) and (err is None or np.array_equal(err, ke, equal_nan=True)), 'the input was modified')
    want = {k: [] for k in got}
    unclear = False
    for g in groups:
        g = [i for i in g if not np.isnan(x[i])]
        v = [float(x[i]) for i in g]
        wl = [1 / float(err[i]) ** 2 if use else 1.0 for i in g]
        wc = [1 / (float(err[i]) * 2 * math.pi / period) ** 2 if use else 1.0 for i in g]
        m, e, r = linear(v, wl, use, tv)
        cm, ce, cr, length, raw = circular(v, wc, use, tv, period)
        unclear |= length < 1e-6 or abs(raw - math.pi / 2) < 1e-6 or abs(abs(cm) - period / 2) < 1e-6 * period
        for k, val in dict(mean=m, err=e, rms=r, prms=r, cmean=cm, cerr=ce, crms=cr).items():
            if k in want:
                want[k].append(val)
    if not unclear:
        for k in got:
            g = np.ma.filled(np.ma.asarray(got[k], dtype=float), np.nan)
            ctx.check(g.size == len(groups) and (axis is None or list(g.shape) == out_shape), f'{k}: shape {g.shape} for data {x.shape} along {axis}')
            scale = np.max(np.abs(np.nan_to_num(x))) + 1
            ctx.close(g.ravel(), want[k], f'{pre}{k} of {x.shape} along {axis}, errors {ek}, period {period}, t {tv}', rtol=1e-7, atol=1e-9 * scale)
    # shift by full periods
    if not unclear:
        shift = period * rng.integers(-3, 4, x.shape)
        for name, opt in ((f'circular_{pre}mean', {}), (f'circular_{pre}error', dict(t_value_corr=tv))):
            a = np.ma.filled(f[name](x + shift, period=period, **kw, **opt), np.nan)
            b = np.ma.filled(f[name](x, period=period, **kw, **opt), np.nan)
            ctx.close(np.ravel(a), np.ravel(b), f'{name} after shifts by full periods', rtol=1e-6, atol=1e-8 * period)
        if 'crms' in got:
            ctx.close(np.ravel(stats.circular_rms(x + shift, period=period, axis=axis)), np.ravel(got['crms']), 'circular_rms after shifts by full periods', rtol=1e-6, atol=1e-8 * period)
    ctx.note(shape=x.shape, axis=axis, errors=ek, period=period, missing=int(np.isnan(x).sum()), t=tv)
    ctx.event(f'errors {ek}')
    ctx.event('with missing values', nan)
    if not unclear:
        ctx.sig(x.shape, axis, ek, nan, period, tv, ctx.idx)


def helpers(ctx):
    rng = ctx.rng
    x, err, axis, ek = data(rng)
    period = float(rng.choice([2 * np.pi, 360.0, 1.0]))
    w = stats.weights_from_errors(err, period=period) if rng.random() < 0.5 else stats.weights_from_errors(err)
    if err is None or ek in ('zero', 'nan'):
        ctx.check(w is None, f'weights for errors of kind {ek}: {w}')
    else:
        ctx.close(w * err ** 2, np.full(err.shape, float((w * err ** 2).flat[0])), 'weights times squared errors', rtol=1e-12)
        ctx.close(stats.weights_from_errors(err), 1 / err ** 2, 'weights', rtol=1e-12)
        ctx.close(stats.weights_from_errors(err, period=period), 1 / (err * 2 * np.pi / period) ** 2, 'weights', rtol=1e-12)
    out_shape, groups = cells(x.shape, axis)
    ww = None if w is None else w
    n = np.ravel(stats.effective_sample_size(x, ww, axis=axis))
    want = [neff([1.0 if ww is None else float(ww[i]) for i in g]) for g in groups]
    ctx.close(n, want, f'effective sample size of {x.shape} along {axis}', rtol=1e-9)
    ctx.close(np.ravel(stats.unbias_variance(x, ww, axis=axis)), [k / (k - 1) for k in want], 'variance correction', rtol=1e-7)
    ctx.close(np.ravel(stats.t_value_correction(np.array(want))), [t_corr(k) for k in want], 'small-sample correction', rtol=1e-9)
    small = np.array([0.0, 1.0, 1.5, 2.0, 2.5, 30.0, 1e6])
    ctx.close(stats.t_value_correction(small), [t_corr(max(2.0, k)) for k in small], 'small-sample correction', rtol=1e-9)
    # reduced cases
    ctx.close(np.ravel(stats.weighted_mean(x, axis=axis)), np.ravel(np.mean(x, axis=axis)), 'mean without errors', rtol=1e-10, atol=1e-12)
    c = np.full(x.shape, float(rng.uniform(0.1, 3)))
    ctx.close(np.ravel(stats.weighted_mean(x, errors=c, axis=axis)), np.ravel(np.mean(x, axis=axis)), 'mean with equal errors', rtol=1e-9, atol=1e-11)
    ctx.close(np.ravel(stats.weighted_rms(x, errors=c, axis=axis)), np.ravel(stats.rms(x, axis=axis)), 'rms with equal errors', rtol=1e-9, atol=1e-11)
    n1 = np.array([len(g) for g in groups])
    if np.all(n1 >= 2):
        ctx.close(np.ravel(stats.weighted_error(x, axis=axis, t_value_corr=False)), np.ravel(np.std(x, axis=axis, ddof=1)), 'error without errors is the sample standard deviation', rtol=1e-8, atol=1e-11)
    one = np.array([float(rng.normal())])
    ctx.close(stats.weighted_mean(one), one[0], 'mean of one value')
    ctx.close(stats.weighted_error(one), 0.0, 'error of one value', atol=1e-14)
    ctx.close(stats.rms(one), abs(one[0]), 'rms of one value')
    ctx.close(stats.circular_mean(one), math.atan2(math.sin(one[0]), math.cos(one[0])), 'circular mean of one value', rtol=1e-9)
    ctx.note(shape=x.shape, axis=axis, errors=ek)
    ctx.sig(x.shape, axis, ek, ctx.idx)


SCENARIOS = dict(definitions=Scenario(definitions, 8000, 20000), helpers=Scenario(helpers, 3000, 6000))
