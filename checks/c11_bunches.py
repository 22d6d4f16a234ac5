"""C11: generated bunches observed particle by particle: centroid bounds, principal-axis bounds, covariance and independence of shots."""
import numpy as np
from vlib import gen, snap
from vlib.common import Scenario
from pySC.core.beam import generate_bunches

PID = 'C11'
RULE = ('random injection settings with zero, diagonal, fully coupled, degenerate and singular beam size matrices and up to thousands of '
        'particles; every particle is checked against the principal-axis bounds, pools against the covariance, shots against each other and '
        'against the user hook. Distinct by the settings.')
ASSUMPTIONS = ['beam size matrices are symmetric and positive semidefinite']
VAR3 = 0.9733369246625415     # variance of a normal distribution truncated at three sigma
VAR2 = 0.7737413035760145


def beam_size(rng):
    kind = str(rng.choice(['diag', 'coupled', 'blocks', 'degenerate', 'singular', 'partly zero', 'dispersive']))
    s = rng.uniform(1e-5, 1e-3, 6)
    if kind == 'diag':
        return kind, np.diag(s ** 2)
    if kind == 'partly zero':
        return kind, np.diag((s * (rng.random(6) < 0.5)) ** 2)
    if kind == 'blocks':
        m = np.zeros((6, 6))
        for k in range(0, 6, 2):
            b = rng.normal(0, 1e-4, (2, 2))
            m[k:k + 2, k:k + 2] = b @ b.T
        return kind, m
    if kind == 'dispersive':
        d = rng.normal(0, 1, 6)
        return kind, np.diag(s ** 2) + 1e-6 * np.outer(d, d)
    q = np.linalg.qr(rng.normal(size=(6, 6)))[0]
    if kind == 'degenerate':
        s = np.repeat(s[:3], 2) if rng.random() < 0.7 else np.full(6, s[0])
    elif kind == 'singular':
        s = s * (np.arange(6) < int(rng.integers(1, 5)))
    m = q @ np.diag(s ** 2) @ q.T
    return kind, (m + m.T) / 2


def settings(ctx):
    rng = ctx.rng
    sc = gen.make_ideal_sc(n_cells=6, kf=0.7, kd=0.77)
    sc.INJ.Z0 = rng.normal(0, 1e-3, 6)
    sc.INJ.Z0ideal = rng.normal(0, 1e-3, 6)
    sc.INJ.randomInjectionZ = rng.uniform(1e-6, 1e-3, 6) * (rng.random(6) < 0.8)
    kind, sc.INJ.beamSize = beam_size(rng)
    sc.INJ.nParticles = int(rng.choice([1, 2, 3, 10, 100]))
    ctx.note(kind=kind, particles=sc.INJ.nParticles, shot_to_shot=sc.INJ.randomInjectionZ)
    return sc, kind


def axes(m):
    v, q = np.linalg.eigh(m)
    return np.sqrt(np.maximum(v, 0)), q


def shots(ctx):
    """Single bunches."""
    rng = ctx.rng
    sc, kind = settings(ctx)
    before = snap.machine(sc)
    n = sc.INJ.nParticles if rng.random() < 0.6 else int(rng.choice([1, 2, 5, 20]))
    override = n != sc.INJ.nParticles
    jit = sc.INJ.randomInjectionZ
    s, q = axes(sc.INJ.beamSize)
    centres = []
    for _ in range(12):
        z = generate_bunches(sc, nParticles=n) if override else generate_bunches(sc)
        ctx.check(np.shape(z) == (6, n), f'shape {np.shape(z)} for {n} particles')
        ctx.check(np.all(np.isfinite(z)), f'bunch with {np.sum(~np.isfinite(z))} undefined coordinates')
        dz = z - sc.INJ.Z0[:, None]
        if n == 1:
            ctx.check(np.all(np.abs(dz[:, 0]) <= 2 * jit * (1 + 1e-9) + 1e-17), f'single particle at {dz[:, 0]}, jitter {jit}')
            ctx.check(np.all((dz[:, 0] != 0)[jit > 1e-9]), 'single particle without jitter')
            centres.append(dz[:, 0])
        else:
            rel = np.abs(q.T @ (z[:, 1:] - z[:, :1]))     # common shift drops out
            ctx.check(np.all(rel <= 6 * s[:, None] * (1 + 1e-6) + 1e-13), f'particles {np.max(rel, axis=1)} apart for principal sizes {s}')
            lim = 3 * s[:, None] + np.abs(q.T) @ (2 * jit[:, None])
            ctx.check(np.all(np.abs(q.T @ dz) <= lim * (1 + 1e-6) + 1e-13), 'particle beyond three sigma and the jitter')
            if not np.any(jit):
                ctx.check(np.all(np.abs(q.T @ dz) <= 3 * s[:, None] * (1 + 1e-6) + 1e-13), 'particle beyond three sigma')
            if not np.any(s):
                ctx.close(dz, np.tile(dz[:, :1], n), 'bunch without size', rtol=0, atol=1e-18)
            else:
                ctx.check(len({tuple(c) for c in np.round(z.T, 14)}) == n, 'two particles coincide')
            centres.append(dz.mean(axis=1))
    c = np.array(centres)
    for k in range(6):
        if jit[k] > 1e-6 and (n == 1 or np.all(s < 1e-6 * jit[k])):
            ctx.check(len(np.unique(c[:, k])) == len(c), f'plane {k}: two shots coincide')
    d = snap.diff(before, snap.machine(sc))
    ctx.check(not d, f'generating bunches changed the machine: {snap.describe(d)}')
    # user hook: gets the bunch and decides the result
    seen = []

    def hook(z):
        seen.append(np.array(z))
        return z * 2 + 1
    sc.INJ.postFun = hook
    z = generate_bunches(sc, nParticles=n)
    ctx.check(len(seen) == 1 and seen[0].shape == (6, n), f'hook called {len(seen)} times')
    ctx.close(z, seen[0] * 2 + 1, 'post-processed bunch', rtol=0, atol=0)
    lim = 2 * jit[:, None] + (3 * np.abs(q) @ s)[:, None] * (n > 1)
    ctx.check(np.all(np.abs(seen[0] - sc.INJ.Z0[:, None]) <= lim * (1 + 1e-6) + 1e-13), 'hook got something else than the bunch')
    ctx.event('bunches', 13)
    ctx.sig(kind, n, override, ctx.idx)


def covariance(ctx):
    """Moments of large bunches and of many shots."""
    rng = ctx.rng
    sc, kind = settings(ctx)
    jit = sc.INJ.randomInjectionZ
    n = 40000 if ctx.thorough else 10000
    z = generate_bunches(sc, nParticles=n)
    s, q = axes(sc.INJ.beamSize)
    centre = z.mean(axis=1) - sc.INJ.Z0
    lim = 2 * jit + 6 * np.sqrt(np.diag(sc.INJ.beamSize) / n)
    ctx.check(np.all(np.abs(centre) <= lim + 1e-15), f'centroid {centre} beyond {lim}')
    good = s > 1e-7
    w = (q.T @ (z - z.mean(axis=1, keepdims=True)))
    x = w[good] / s[good][:, None]
    ctx.check(np.all(np.abs(w[~good]) < 1e-6), 'spread along a direction of vanishing size')
    cov = np.cov(x) if x.shape[0] > 1 else np.atleast_2d(np.var(x)) if x.shape[0] else np.zeros((0, 0))
    ctx.check(np.all(np.abs(cov - VAR3 * np.eye(len(cov))) < 8 / np.sqrt(n)), f'{kind}: covariance along the principal axes {np.round(cov, 3).tolist()}')
    if x.size:
        d = np.linalg.matrix_rank(sc.INJ.beamSize, tol=1e-14)
        full = np.cov(z)
        scale = np.sqrt(np.outer(np.diag(sc.INJ.beamSize), np.diag(sc.INJ.beamSize)))
        ctx.check(np.all(np.abs(full - VAR3 * sc.INJ.beamSize) <= 8 / np.sqrt(n) * scale + 1e-14), f'{kind}: covariance {full}')
        ctx.note(rank=int(d))
    # shot to shot
    sc.INJ.beamSize = np.zeros((6, 6))
    m = 3000 if ctx.thorough else 800
    c = np.array([generate_bunches(sc, nParticles=int(rng.integers(1, 3)))[:, 0] for _ in range(m)]) - sc.INJ.Z0
    on = jit > 0
    ctx.check(np.all(np.abs(c[:, ~on]) < 1e-17), 'jitter in a plane without')
    y = c[:, on] / jit[on]
    if y.size:
        ctx.check(np.all(np.abs(y) <= 2 + 1e-6), f'jitter of {np.max(np.abs(y))} sigma')
        ctx.check(np.all(np.abs(y.mean(axis=0)) < 6 * np.sqrt(VAR2 / m)), f'mean jitter {y.mean(axis=0)}')
        cc = (y.T @ y) / m
        ctx.check(np.all(np.abs(cc - VAR2 * np.eye(len(cc))) < 8 / np.sqrt(m)), f'covariance of the jitter {np.round(cc, 2).tolist()}')
        cc = (y[1:].T @ y[:-1]) / m
        ctx.check(np.all(np.abs(cc) < 8 / np.sqrt(m)), f'successive shots are correlated {np.round(cc, 2).tolist()}')
    ctx.event('particles', n)
    ctx.event('shots', m)
    ctx.sig(kind, ctx.idx)


SCENARIOS = dict(shots=Scenario(shots, 900, 3000), covariance=Scenario(covariance, 240, 500))
