"""C21: pseudo-inverse against matrices built from known singular vectors and values, and against the Moore-Penrose conditions."""
import numpy as np
from vlib.common import Scenario
from pySC.utils.sc_tools import pinv

PID = 'C21'
RULE = ('matrices of random shape (wide, tall, square, single row/column) with prescribed singular values over up to nine decades, with '
        'exact zero values, products of low rank, zero rows/columns, duplicated columns and measured-response-like blocks; options drawn alone '
        'and combined. Distinct by matrix and options.')
ASSUMPTIONS = ['The smallest and largest non-vanishing singular values differ by less than 1e10, and singular values at the border of a removal are distinct.']


def known(ctx):
    rng = ctx.rng
    m, n = int(rng.integers(1, 13)), int(rng.integers(1, 13))
    k = min(m, n)
    decades = float(rng.choice([0.5, 2, 6, 9]))
    s = np.sort(10.0 ** -rng.uniform(0, decades, k))[::-1]
    for i in range(1, k):       # distinct
        s[i] = min(s[i], s[i - 1] * 0.97)
    scale = float(10.0 ** rng.uniform(-8, 8)) if rng.random() < 0.5 else 1.0
    u = np.linalg.qr(rng.normal(size=(m, m)))[0][:, :k]
    v = np.linalg.qr(rng.normal(size=(n, n)))[0][:, :k]
    rank = k
    if rng.random() < 0.4:
        rank = int(rng.integers(0, k + 1))
        s[rank:] = 0
    s = s * scale
    a = (u * s) @ v.T
    if rank == 0:
        a = np.zeros((m, n))
    if rng.random() < 0.2:
        a = np.asfortranarray(a)
    kw, left, d = {}, rank, np.zeros(k)
    if rng.random() < 0.6:
        kw['num_removed'] = int(rng.choice([0, 1, rng.integers(0, k + 1), k, k + int(rng.integers(1, 4))]))
        left = max(0, min(rank, k - kw['num_removed']))
    if rng.random() < 0.5:
        kw['alpha'] = float(scale * rng.choice([0, 1e-3, 0.1, 1.0, 10.0]))
    if rng.random() < 0.5:
        kw['damping'] = float(rng.choice([0.5, 0.9, 1.0, 0.0, 2.0]))
    d[:left] = kw.get('damping', 1.0) * s[:left] / (s[:left] ** 2 + kw.get('alpha', 0.0) ** 2)
    keep = a.copy()
    got = pinv(a, **kw)
    ctx.check(np.array_equal(a, keep), 'the matrix was modified')
    want = (v * d) @ u.T
    size = np.max(np.abs(d)) if np.any(d) else 1.0 / scale
    cond = s[0] / s[rank - 1] if rank else 1.0
    ctx.close(got / size, want / size, f'pseudo-inverse of {m}x{n} of rank {rank} with {kw}', rtol=0, atol=1e-13 * cond * 30)
    ctx.check(got is not a and not np.shares_memory(got, a), 'the result shares memory with the matrix')
    again = pinv(a, **kw)
    ctx.check(np.array_equal(got, again), 'repeating gives a different result')
    ctx.note(shape=[m, n], rank=rank, options=kw, decades=decades)
    ctx.sig(m, n, rank, sorted(kw), ctx.idx)


def conditions(ctx):
    """Moore-Penrose conditions for matrices given by their entries only."""
    rng = ctx.rng
    m, n = int(rng.integers(1, 15)), int(rng.integers(1, 15))
    kind = str(rng.choice(['full', 'product', 'zeros', 'copies', 'integers', 'plusconst']))
    a = rng.normal(size=(m, n))
    if kind == 'product':
        r = int(rng.integers(1, min(m, n) + 1))
        a = rng.normal(size=(m, r)) @ rng.normal(size=(r, n))
    elif kind == 'zeros':        # monitors not reached by the beam, correctors behind the last monitor
        a[rng.random(m) < 0.4, :] = 0
        a[:, rng.random(n) < 0.4] = 0
    elif kind == 'copies':
        a = a[:, rng.integers(0, n, n)]
        a = a[rng.integers(0, m, m), :]
    elif kind == 'integers':
        a = rng.integers(-3, 4, (m, n)).astype(float)
    elif kind == 'plusconst':
        a = np.outer(np.arange(m) + 1.0, np.ones(n)) + np.outer(np.ones(m), np.arange(n) * 1.0)
    a = a * float(10.0 ** rng.integers(-6, 7))
    s = np.linalg.svd(a, compute_uv=False)
    nz = s[s > s[0] * 1e-11] if s[0] > 0 else s[:0]
    if len(nz) and nz[-1] < 1e-6 * nz[0]:
        return
    x = pinv(a.copy())
    ctx.check(x.shape == (n, m), f'shape {x.shape} for a matrix of shape {(m, n)}')
    na = s[0] if s[0] > 0 else 1.0
    nx = 1 / nz[-1] if len(nz) else 1.0
    tol = 1e-12 * na * nx * 100
    ctx.close(a @ x @ a / na, a / na, f'A X A = A for {kind} {m}x{n}', rtol=0, atol=tol)
    ctx.close(x @ a @ x / nx, x / nx, f'X A X = X for {kind} {m}x{n}', rtol=0, atol=tol)
    ctx.close(a @ x, (a @ x).T, f'A X symmetric for {kind} {m}x{n}', rtol=0, atol=tol)
    ctx.close(x @ a, (x @ a).T, f'X A symmetric for {kind} {m}x{n}', rtol=0, atol=tol)
    ctx.note(kind=kind, shape=[m, n], rank=len(nz))
    ctx.event(f'matrices of kind {kind}')
    ctx.sig(kind, m, n, len(nz), ctx.idx)


SCENARIOS = dict(known=Scenario(known, 6000, 40000), conditions=Scenario(conditions, 4000, 30000))
