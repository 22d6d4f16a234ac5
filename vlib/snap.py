"""Full-state snapshots of a machine and exact differences between them."""
import numpy as np


def freeze(x, depth=0):
    """An independent, comparable copy of plain data."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return [freeze(v, depth + 1) for v in x.ravel()]
        return x.copy()
    if isinstance(x, dict):
        return {k: freeze(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [freeze(v, depth + 1) for v in x]
    if isinstance(x, (np.generic, int, float, complex, str, bytes, bool)) or x is None:
        return x
    if callable(x):
        return ('callable', getattr(x, '__qualname__', type(x).__name__))
    if hasattr(x, '__dict__') and depth < 6:
        return {k: freeze(v, depth + 1) for k, v in vars(x).items() if not k.startswith('_')}
    return ('object', type(x).__name__)


def element(e):
    d = {k: freeze(v) for k, v in vars(e).items() if not k.startswith('_')}
    for k in ('Length', 'BendingAngle', 'PassMethod', 'FamName'):
        if hasattr(e, k):
            d.setdefault(k, freeze(getattr(e, k)))
    d['class'] = type(e).__name__
    return d


def ring(r):
    return dict(elements=[element(e) for e in r],
                lattice=dict(energy=getattr(r, 'energy', None), periodicity=getattr(r, 'periodicity', None),
                             name=getattr(r, 'name', None)))


def injection(inj):
    d = {k: freeze(v) for k, v in vars(inj).items() if not k.startswith('_') and k != 'postFun'}
    d['trackMode'] = inj.trackMode
    d['postFun'] = id(getattr(inj.postFun, '__func__', inj.postFun))
    return d


def machine(sc):
    return dict(RING=ring(sc.RING), IDEALRING=ring(sc.IDEALRING), INJ=injection(sc.INJ), SIG=freeze(dict(sc.SIG)),
                ORD=freeze({k: v for k, v in dict(sc.ORD).items()}), plot=sc.plot)


def _same(a, b, rtol, atol):
    try:
        if rtol or atol:
            return np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        return (a == b) | ((a != a) & (b != b))
    except TypeError:
        return a == b


def diff(a, b, path=(), rtol=0.0, atol=0.0, out=None):
    """List of (path, before, after); array components are reported one by one."""
    if out is None:
        out = []
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                out.append((path + (k,), a[k], '<absent>'))
            else:
                diff(a[k], b[k], path + (k,), rtol, atol, out)
        for k in b:
            if k not in a:
                out.append((path + (k,), '<absent>', b[k]))
        return out
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            out.append((path + ('len',), len(a), len(b)))
            return out
        for i, (x, y) in enumerate(zip(a, b)):
            diff(x, y, path + (i,), rtol, atol, out)
        return out
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            out.append((path + ('shape',), x.shape, y.shape))
            return out
        if x.dtype.kind in 'OUS' or y.dtype.kind in 'OUS':
            if not np.array_equal(x, y):
                out.append((path, a, b))
            return out
        same = _same(x, y, rtol, atol)
        if not np.all(same):
            for i in np.argwhere(~np.atleast_1d(same)):
                i = tuple(int(k) for k in i)
                xi = x[i] if x.ndim else x.item()
                yi = y[i] if y.ndim else y.item()
                out.append((path + i, xi, yi))
        return out
    if isinstance(a, (int, float, np.generic)) and isinstance(b, (int, float, np.generic)) \
            and not isinstance(a, (str, bytes)) and not isinstance(b, (str, bytes)):
        if not bool(_same(a, b, rtol, atol)):
            out.append((path, a, b))
        return out
    if type(a) is not type(b) or a != b:
        out.append((path, a, b))
    return out


def describe(d, n=4):
    return '; '.join(f'{".".join(map(str, p))}: {str(x)[:60]} -> {str(y)[:60]}' for p, x, y in d[:n]) + \
        (f' (+{len(d) - n} more)' if len(d) > n else '')


def fast_ring(r):
    """Cheaper fingerprint basis for per-step monitoring: list of element dictionaries."""
    return [element(e) for e in r]


def shared_arrays(*objs):
    """Memory overlap between distinct attribute holders: [(path1, path2), ...] of ndarrays / mutable containers shared."""
    seen, out = {}, []
    for name, obj in objs:
        for path, arr in walk_arrays(obj, (name,)):
            if isinstance(arr, np.ndarray):
                if arr.size == 0:
                    continue
                key = arr.__array_interface__['data'][0]
            else:
                key = id(arr)
            if key in seen and seen[key][0] != path:
                out.append((seen[key], path))
            else:
                seen[key] = path
    return out


def walk_arrays(x, path, depth=0):
    if depth > 7:
        return
    if isinstance(x, np.ndarray):
        yield path, x
        if x.dtype == object:
            for i, v in enumerate(x.ravel()):
                yield from walk_arrays(v, path + (i,), depth + 1)
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from walk_arrays(v, path + (str(k),), depth + 1)
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from walk_arrays(v, path + (i,), depth + 1)
    elif hasattr(x, '__dict__') and not callable(x):
        for k, v in vars(x).items():
            yield from walk_arrays(v, path + (k,), depth + 1)
