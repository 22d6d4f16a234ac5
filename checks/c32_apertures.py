"""C32: dynamic and momentum aperture judged by tracking the reported border, and particles on both sides of it, through the given lattice."""
import warnings
import numpy as np
import at
from vlib import gen, snap
from vlib.common import Scenario, LogCapture, Skip
from pySC.lattice_properties.apertures import SCdynamicAperture, SCmomentumAperture

PID = 'C32'
RULE = ('random rings with sextupoles, physical apertures, dipole kicks, radiation-free cavities or none; random directions, start intervals (inside, around, '
        'outside the aperture, negative), turns, accuracies, momentum offsets, launch and centre options; positions of momentum apertures anywhere. Distinct by ring and arguments.')
ASSUMPTIONS = ['The border is a point where survival changes: with islands of stability any of the borders is accepted.',
               'Positions for momentum apertures are ascending (a requirement of the tracking code).']


def any_ring(ctx, cavity):
    rng = ctx.rng
    s = float(rng.uniform(0.3, 2.0))
    ring = gen.make_ring(rng, rf=cavity, sext=(3.0 * s, -4.0 * s), apertures=[float(rng.uniform(3e-3, 2e-2)), float(rng.uniform(2e-3, 1e-2))] if rng.random() < 0.9 else None)
    if rng.random() < 0.5:  # apertures in few places only
        keep = rng.choice(len(ring), 8, replace=False)
        for i, e in enumerate(ring):
            if i not in keep and hasattr(e, 'EApertures'):
                del e.EApertures
    if rng.random() < 0.6:  # closed orbit away from the axis
        for i in rng.choice(gen.ords(ring, 'QF', 'QD'), 3, replace=False):
            ring[i].PolynomB[0] = rng.normal(0, 2e-4)
            ring[i].PolynomA[0] = rng.normal(0, 1e-4)
    return ring


def alive(ring, z, nturns):
    out = at.lattice_track(lattice=ring, r_in=np.array(z, dtype=float).reshape(6, -1, order='F').copy(order='F'), nturns=nturns, refpts=len(ring))[0]
    return ~np.isnan(out[0, :, 0, -1])


def close_orbit(ring, cavity):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return at.find_orbit6(ring)[0] if cavity else at.find_orbit4(ring, 0.0)[0]


def border(ctx, ring, z0, theta, r, nturns, tol, what, width):
    """There is a surviving particle just inside and a lost one just outside of the reported radius."""
    # inside islands and chaos single points matter: also the end points of all possible last intervals
    widths = np.outer(np.abs([width, width / 2, width * 5.5, width * 10]), 10.0 ** np.arange(0, 9)).ravel()
    widths = widths * 0.5 ** np.ceil(np.log2(np.maximum(widths / (2 * tol / 1.02), 1.0)))
    steps = np.concatenate((np.linspace(0.0, 1.0, 17) * tol, np.unique(widths) / 2))
    sgn = 1.0 if r >= 0 else -1.0

    def starts(rr):
        z = np.tile(np.asarray(z0, dtype=float).reshape(6, 1), (1, len(rr)))
        z[0], z[2] = rr * np.cos(theta), rr * np.sin(theta)
        return z
    outside = alive(ring, starts(r + sgn * steps), nturns)
    ctx.check(not np.all(outside), f'{what}: every particle between the reported {r:.6g} and {r + sgn * tol:.6g} survives')
    if abs(r) > tol:
        inside = alive(ring, starts(r - sgn * steps), nturns)
        ctx.check(bool(np.any(inside)), f'{what}: every particle between {r - sgn * tol:.6g} and the reported {r:.6g} is lost')
        ctx.event('borders')
    else:
        ctx.event('zero apertures')


def settings(ctx, cavity):
    rng = ctx.rng
    kw = dict(nturns=int(rng.integers(1, 40)), accuracy=float(10 ** rng.uniform(-6, -4)))
    if rng.random() < 0.5:
        k = int(rng.integers(0, 4))
        kw['bounds'] = np.array([[0.0, 10 ** rng.uniform(-4, -2)], [1e-3, 1e-2], [10 ** rng.uniform(-4, -2), 0.0], [0.0, -10 ** rng.uniform(-4, -2)]][k])
    if rng.random() < 0.4:
        kw['launchOnOrbit'] = True
    if rng.random() < 0.5:
        kw['centerOnOrbit'] = False
    if cavity:
        kw['useOrbit6'] = True
    return kw


def dynamic(ctx):
    rng = ctx.rng
    cavity = bool(rng.random() < 0.5)
    ring = any_ring(ctx, cavity)
    kw = settings(ctx, cavity)
    if rng.random() < 0.8:
        kw['thetas'] = rng.uniform(0, 2 * np.pi, int(rng.integers(1, 6))) if rng.random() < 0.6 else np.linspace(0, 2 * np.pi, int(rng.integers(3, 7)))
    else:
        kw['auto'] = int(rng.integers(3, 8))
    dE = float(rng.choice([0.0, rng.normal(0, 5e-3)]))
    orbit = close_orbit(ring, cavity)
    if np.any(np.isnan(orbit)):
        raise Skip('no closed orbit')
    before = snap.ring(ring)
    given = {k: np.copy(v) for k, v in kw.items() if isinstance(v, np.ndarray)}
    da, radius, angle = SCdynamicAperture(ring, dE, **kw)
    ctx.check(all(np.array_equal(kw[k], given[k]) for k in given), 'arguments were changed')
    ctx.check(not snap.diff(before, snap.ring(ring)), 'the lattice was changed')
    n = kw.get('auto', 0) or len(kw['thetas'])
    ctx.check(np.shape(radius) == (n,) and np.shape(angle) == (n,), f'shapes {np.shape(radius)}, {np.shape(angle)} for {n} directions')
    ctx.check(np.all(np.isfinite(radius)), f'radii {radius}')
    x, y = radius * np.cos(angle), radius * np.sin(angle)
    if kw.get('centerOnOrbit', True):
        x, y = x + orbit[0], y + orbit[2]
    if 'thetas' in kw:
        th = kw['thetas']
        r = x * np.cos(th) + y * np.sin(th)
        ctx.close(np.vstack((x, y)), np.vstack((r * np.cos(th), r * np.sin(th))), 'points lie in the requested directions', rtol=1e-9, atol=1e-12)
    else:
        th, r = np.arctan2(y, x), np.hypot(x, y)
        if kw.get('bounds', np.ones(2)).min() < 0:
            th, r = th + np.pi, -r
        if np.all(np.abs(r) > 10 * kw['accuracy']):
            ctx.check(np.all(np.diff(np.unwrap(th)) > 0) and abs(np.unwrap(th)[-1] - np.unwrap(th)[0] - 2 * np.pi) < 1e-6 if n > 4 else True, f'automatic directions {th} go once around')
    z0 = np.zeros(6)
    if kw.get('launchOnOrbit'):
        z0[:] = orbit
        if not cavity:
            z0[4:] = 0.0
    z0[4] += dE
    for i in range(n):
        border(ctx, ring, z0, th[i], r[i], kw['nturns'], 0.51 * kw['accuracy'] + 1e-12, f'{kw}, dE={dE:.3g}, direction {th[i]:.3f}',
               float(np.diff(kw.get('bounds', np.array([0.0, 1e-3])))[0]))
        if kw.get('bounds', np.ones(2))[-1] > 0 and np.min(kw.get('bounds', np.ones(2))) >= 0:
            ctx.check(r[i] >= -1e-15, f'radius {r[i]} for positive start interval')
    # the area is the one of the polygon seen from the axis
    want = 0.5 * np.sum(np.sin(np.diff(th)) * r[:-1] * r[1:])
    ctx.close(da, want, f'area of the polygon {da} {want}', rtol=1e-7, atol=1e-15)
    if n > 3 and abs(abs(np.unwrap(th)[-1] - np.unwrap(th)[0]) - 2 * np.pi) < 1e-6:
        ctx.close(da, 0.5 * np.sum(x[:-1] * y[1:] - x[1:] * y[:-1]), 'area inside the border', rtol=1e-7, atol=1e-15)
        ctx.event('closed borders')
    ctx.sig(sorted(kw), cavity, n, ctx.idx)


def momentum(ctx):
    rng = ctx.rng
    ring = any_ring(ctx, True)
    for c in gen.ords(ring, 'RFCav'):
        ring[c].Voltage = float(rng.uniform(1e6, 5e6))
    orbit = close_orbit(ring, True)
    if np.any(np.isnan(orbit)):
        raise Skip('no closed orbit')
    refpts = np.unique(rng.integers(0, len(ring), int(rng.integers(1, 4))))
    nturns = int(rng.integers(1, 60))
    acc = float(10 ** rng.uniform(-4, -1.5))
    step = float(rng.choice([1e-3, 3e-3]))
    side = float(rng.choice([1, -1]))
    bounds = side * np.sort(rng.uniform(1e-3, 4e-2, 2))
    if rng.random() < 0.3:
        bounds = side * np.array([0.0, 10 ** rng.uniform(-3, -1)])
    orbits = at.find_orbit6(ring, refpts=refpts)[1]
    rings = [at.Lattice(list(ring[int(o):]) + list(ring[:int(o)]), energy=2.5e9, periodicity=1) for o in refpts]
    before = snap.ring(ring)
    given = bounds.copy()
    as_list = bool(rng.random() < 0.3)
    got = SCmomentumAperture(ring, refpts, list(bounds) if as_list else bounds, nturns=nturns, accuracy=acc, stepsize=step)
    ctx.check(np.array_equal(bounds, given), 'the start interval was changed')
    ctx.check(not snap.diff(before, snap.ring(ring)), 'the lattice was changed')
    ctx.check(got.shape == (len(refpts), 2), f'shape {got.shape}')
    for k, rg in enumerate(rings):
        if not alive(rg, orbits[k], nturns)[0]:
            ctx.check(not np.any(got[k]), f'position {refpts[k]}: {got[k]} although the closed orbit is outside the aperture')
            ctx.event('orbit outside')
            continue
        z = np.tile(orbits[k].reshape(6, 1), (1, 2))
        z[4] += got[k]
        a = alive(rg, z, nturns)
        ctx.check(bool(a[0]), f'position {refpts[k]}: particle at the inner bound {got[k, 0]:.6g} of {bounds} is lost')
        ctx.check(not a[1], f'position {refpts[k]}: particle at the outer bound {got[k, 1]:.6g} of {bounds} survives')
        ctx.check(abs(got[k, 1] - got[k, 0]) <= acc * abs(np.max(got[k])) * (1 + 1e-9) or abs(got[k, 1]) < 1e-300, f'bounds {got[k]} further apart than accuracy {acc}')
        ctx.check(side * got[k, 1] > -2 * step, f'border {got[k]} on the wrong side of {bounds}')
        ctx.event('momentum borders')
    ctx.sig(len(ring), refpts.tolist(), side, nturns, ctx.idx)


def no_orbit(ctx):
    """Without a closed orbit the momentum aperture is zero, and this is reported."""
    rng = ctx.rng
    ring = any_ring(ctx, True)
    for i in gen.ords(ring, 'QF'):
        ring[i].PolynomB[1] = -float(rng.uniform(3, 5))
    for i in rng.choice(gen.ords(ring, 'QF', 'QD'), 3, replace=False):
        ring[i].PolynomB[0] = rng.normal(0, 1e-2)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if not np.any(np.isnan(at.find_orbit6(ring)[0])):
            raise Skip('closed orbit exists')
        refpts = np.unique(rng.integers(0, len(ring), 3))
        with LogCapture() as log:
            got = SCmomentumAperture(ring, refpts, np.array([1e-3, 2e-2]), nturns=5)
    ctx.check(got.shape == (len(refpts), 2) and not np.any(got), f'{got} without closed orbit')
    ctx.event('without orbit')
    ctx.sig(ctx.idx)


SCENARIOS = dict(dynamic=Scenario(dynamic, 260, 4000), momentum=Scenario(momentum, 150, 2500), no_orbit=Scenario(no_orbit, 12, 100))
