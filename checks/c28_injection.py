"""C28: fitted injection coordinates compared with the known ones, with a separate least-squares fit and with tracking to the injection point, and the machine with its state before."""
import numpy as np
import at
from scipy.optimize import least_squares
from vlib import gen, snap
from vlib.common import Scenario, Skip
from pySC.core.beam import bpm_reading
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.correction.injection_fit import fit_injection_drift, fit_injection_trajectory

PID = 'C28'
RULE = ('rings without and with errors, offsets and angles of the injected beam, monitor subsets, bunches, shots, turns, lost beams, plots; fits are compared with '
        'the injected coordinates and with an independent least-squares solution. Distinct by settings; non-trivial when a fit or a rejection was compared.')
ASSUMPTIONS = ['readings are free of noise and jitter', 'monitors are given in lattice order', 'monitor subsets determine all four coordinates']


def fresh(ring):
    return at.Lattice([e.deepcopy() for e in ring], energy=ring.energy, periodicity=1)


def track(ring, z, refs, turns=1):
    return at.lattice_track(ring, np.array(z, dtype=float).reshape(6, 1), nturns=turns, refpts=np.array(refs), in_place=False)[0][:, 0]


def subset(rng, sc):
    k = int(rng.integers(4))
    n = len(sc.ORD.BPM)
    if k == 0:
        return np.array([0, 1, 2])
    if k == 1:
        return np.sort(rng.choice(min(n, 8), int(rng.integers(2, min(n, 6))), replace=False))
    if k == 2:
        return np.arange(int(rng.integers(2, n + 1)))
    return np.sort(rng.choice(n, int(rng.integers(3, n + 1)), replace=False))


def smallest(ring, ords):
    """How well the coordinates at injection are determined by positions at ords."""
    r0 = track(ring, np.zeros(6), ords)[[0, 2], :, 0].ravel()
    m = []
    for k in range(4):
        z = np.zeros(6)
        z[k] = 1e-6
        m.append((track(ring, z, ords)[[0, 2], :, 0].ravel() - r0) / 1e-6)
    return np.linalg.svd(np.array(m).T / np.sqrt(2 * len(ords)), compute_uv=False)[-1]


def beam(ctx, sc):
    rng = ctx.rng
    sc.INJ.Z0 = np.concatenate((rng.normal(size=4) * np.array([3e-4, 3e-5, 3e-4, 3e-5]) * 10 ** rng.uniform(-1, 0.3), np.zeros(2)))
    if rng.random() < 0.15:
        sc.INJ.Z0[int(rng.integers(4))] = 0.0
    if rng.random() < 0.4:
        sc.INJ.Z0ideal = np.concatenate((rng.normal(size=4) * np.array([3e-4, 3e-5, 3e-4, 3e-5]), np.zeros(2)))
    sc.INJ.nParticles = int(rng.choice([1, 1, 3]))
    sc.INJ.nShots = int(rng.choice([1, 1, 2]))
    sc.INJ.nTurns = int(rng.choice([1, 1, 2]))
    sc.INJ.trackMode = 'TBT'
    sc.INJ.randomInjectionZ = np.zeros(6)
    sc.INJ.beamSize = np.zeros((6, 6))


def run_fit(ctx, sc, inds):
    rng = ctx.rng
    plot = bool(rng.random() < 0.1)
    keep = inds.copy()
    before = snap.machine(sc)
    z0 = sc.INJ.Z0.copy()
    args = () if np.array_equal(inds, [0, 1, 2]) and rng.random() < 0.5 else (inds,)
    got = fit_injection_trajectory(sc, *args, **(dict(plot=True) if plot else {}))
    ctx.check(np.array_equal(keep, inds), 'the list of monitors was changed')
    ctx.check(np.shape(got) == (6,) and np.all(got[4:] == 0), f'result {got}')
    ctx.close(sc.INJ.Z0, z0 + got, 'the injected beam is moved by the result', rtol=1e-12, atol=1e-18)
    for path, a, b in snap.diff(before, snap.machine(sc)):
        ctx.check(path[:2] == ('INJ', 'Z0'), f'the fit changed {path}')
    return got, z0, plot


def trajectory(ctx):
    rng = ctx.rng
    sc = gen.make_ideal_sc(rng, corr_elements=bool(rng.random() < 0.3), cf_bends=bool(rng.random() < 0.2))
    bpms = gen.ords(sc.RING, 'BPM')
    if rng.random() < 0.3:
        bpms = np.sort(rng.choice(bpms, int(rng.integers(4, len(bpms))), replace=False))
    sc.register_bpms(bpms)
    if rng.random() < 0.5:
        sc.register_magnets(gen.ords(sc.RING, 'QF', 'QD'))
        sc.apply_errors()
    beam(ctx, sc)
    inds = subset(rng, sc)
    smin = smallest(sc.IDEALRING, sc.ORD.BPM[inds])
    if smin < 0.05:
        raise Skip('coordinates not determined')
    got, z0, plot = run_fit(ctx, sc, inds)
    ctx.note(monitors=inds, z0=z0, smin=smin, particles=sc.INJ.nParticles, plot=plot)
    ctx.close(got[:4], -z0[:4], 'fitted coordinates', rtol=1e-4, atol=3e-7 / smin)
    ctx.close(sc.INJ.Z0[:4], np.zeros(4), 'coordinates left after the fit', atol=3e-7 / smin + 1e-4 * np.abs(z0[:4]).max())
    ctx.sig(len(inds), sc.INJ.nParticles, sc.INJ.nTurns, ctx.idx)


def merit(ring, z, ords, ref):
    t = track(ring, np.concatenate((z, np.zeros(2))), ords)[[0, 2], :, 0]
    return (ref - t).ravel()


def with_errors(ctx):
    rng = ctx.rng
    sc, o = gen.make_sc(rng, scale=float(rng.choice([0.2, 1.0])), noise=False)
    beam(ctx, sc)
    sc.INJ.nTurns, sc.INJ.nShots = 1, 1
    if rng.random() < 0.5:
        sc.INJ.Z0[4:] = rng.normal(size=2) * 1e-3
    inds = subset(rng, sc)
    ords = sc.ORD.BPM[inds]
    ref = bpm_reading(sc)[0][:, inds]
    if np.any(np.isnan(ref)) or smallest(sc.IDEALRING, ords) < 0.05:
        raise Skip('no beam')
    best = least_squares(lambda z: merit(sc.IDEALRING, z * 1e-4, ords, ref) * 1e4, np.zeros(4), xtol=1e-14, ftol=1e-14, gtol=1e-14)
    mine = np.sqrt(np.mean((best.fun * 1e-4) ** 2))
    got, z0, _ = run_fit(ctx, sc, inds)
    theirs = np.sqrt(np.mean(merit(sc.IDEALRING, -got[:4], ords, ref) ** 2))
    ctx.note(monitors=inds, z0=z0, best=mine, fitted=theirs)
    ctx.check(theirs <= mine * (1 + 1e-3) + 1e-7, f'deviation of the fitted trajectory {theirs:.3e}, possible {mine:.3e}')
    ctx.sig(len(inds), sc.INJ.nParticles, ctx.idx)


def lost_beam(ctx):
    rng = ctx.rng
    sc = gen.make_ideal_sc(rng)
    bpms = gen.ords(sc.RING, 'BPM')
    sc.register_bpms(bpms)
    beam(ctx, sc)
    sc.INJ.Z0[:4] += np.sign(sc.INJ.Z0[:4] + 1e-12) * np.array([1e-4, 1e-5, 1e-4, 1e-5])
    last = int(rng.integers(0, 5))
    stop = bpms[last] - 1 if rng.random() < 0.5 else bpms[last] + 1
    sc.RING[int(stop)].EApertures = np.array([1e-9, 1e-9])
    inds = subset(rng, sc)
    seen = np.array([i for i in inds if bpms[i] < stop], dtype=int)
    seen_now = ~np.isnan(bpm_reading(sc)[0][0, inds])
    if not np.array_equal(inds[seen_now], seen):
        raise Skip('beam lost elsewhere')
    ctx.note(monitors=inds, seen=len(seen))
    if len(seen) < 2:
        before = snap.machine(sc)
        ctx.raises(RuntimeError, lambda: fit_injection_trajectory(sc, inds), 'fit without beam at two monitors')
        d = snap.diff(before, snap.machine(sc))
        ctx.check(not d, f'the machine was changed: {snap.describe(d)}')
        ctx.event('rejected')
    else:
        smin = smallest(sc.IDEALRING, bpms[seen])
        if smin < 0.05:
            raise Skip('coordinates not determined')
        got, z0, _ = run_fit(ctx, sc, inds)
        ctx.close(got[:4], -z0[:4], f'fitted coordinates with {len(seen)} of {len(inds)} monitors', rtol=1e-4, atol=3e-7 / smin)
        ctx.event('partly lost')
    ctx.sig(len(inds), len(seen), ctx.idx)


def silent(ctx):
    """Single monitors anywhere in the list give no reading because their sum signal is below the threshold of beam loss."""
    rng = ctx.rng
    sc = gen.make_ideal_sc(rng)
    bpms = gen.ords(sc.RING, 'BPM')
    sc.register_bpms(bpms)
    beam(ctx, sc)
    sc.INJ.nTurns, sc.INJ.nShots = 1, 1
    sc.INJ.beamLostAt = 0.1
    inds = subset(rng, sc)
    for i in rng.choice(inds, int(rng.integers(1, max(2, len(inds) // 2))), replace=False):
        sc.RING[int(bpms[i])].SumError = 0.5
    state = np.random.get_state()
    sc.INJ.postFun = lambda z: (np.random.set_state(state), z)[1]  # each shot draws the same sum signals
    seen_now = ~np.isnan(bpm_reading(sc)[0][0, inds])
    seen = inds[seen_now]
    if len(seen) < 2 or smallest(sc.IDEALRING, bpms[seen]) < 0.05:
        raise Skip('coordinates not determined')
    smin = smallest(sc.IDEALRING, bpms[seen])
    ctx.note(monitors=inds, seen=seen)
    got, z0, _ = run_fit(ctx, sc, inds)
    ctx.close(got[:4], -z0[:4], f'fitted coordinates with {len(seen)} of {len(inds)} monitors', rtol=1e-4, atol=3e-7 / smin)
    ctx.event('gaps', len(seen) < len(inds) and not np.array_equal(seen, inds[:len(seen)]))
    ctx.sig(len(inds), len(seen), ctx.idx)


def drift(ctx):
    rng = ctx.rng
    ring = gen.make_ring(rng)
    elems = [e.deepcopy() for e in ring]
    k = next(i for i, e in enumerate(elems) if e.FamName == 'D2')
    straight = bool(rng.random() < 0.7)
    if straight:  # a monitor behind the injection point without any magnet between the last monitor and this one
        if rng.random() < 0.5:
            elems.insert(k + 1, at.Monitor('BPM'))
        else:
            elems.insert(k + 1, at.Drift('D2', 0.3))
            elems.insert(k + 2, at.Marker('BPM'))
    if rng.random() < 0.5:
        elems.append(at.Drift('D1', float(rng.uniform(0.05, 0.4))))
    sc = SimulatedCommissioning(at.Lattice(elems, name='gen', energy=2.5e9, periodicity=1))
    bpms = gen.ords(sc.RING, 'BPM')
    sc.register_bpms(bpms)
    if rng.random() < 0.6:
        q = gen.ords(sc.RING, 'QF', 'QD')
        sc.register_magnets(q, MagnetOffset=np.array([3e-5, 3e-5, 0]), CalErrorB=np.array([0, 1e-3, 0]))
        sc.apply_errors()
    beam(ctx, sc)
    sc.INJ.nTurns = int(rng.integers(2, 4))
    if rng.random() < 0.2:
        sc.RING[int(bpms[int(rng.integers(1, len(bpms)))]) - 1].EApertures = np.array([1e-9, 1e-9])
    plot = bool(rng.random() < 0.15)
    before = snap.machine(sc)
    turns = track(fresh(sc.RING), sc.INJ.Z0, np.concatenate((bpms, [len(sc.RING)])), sc.INJ.nTurns)
    ok = not np.any(np.isnan(turns[:, -2, 0])) and not np.any(np.isnan(turns[:, 0, 1]))
    ctx.note(straight=straight, turns=sc.INJ.nTurns, seen=ok, plot=plot)
    kw = dict(plot=True) if plot else {}
    if rng.random() < 0.3:
        kw['n_dims'] = np.array([[0, 1], [0], [1]][int(rng.integers(3))])
    if not ok:
        ctx.raises(RuntimeError, lambda: fit_injection_drift(sc, **kw), 'fit without beam')
        ctx.sig('lost', ctx.idx)
        return
    got = fit_injection_drift(sc, **kw)
    d = snap.diff(before, snap.machine(sc))
    ctx.check(not d, f'the machine was changed: {snap.describe(d)}')
    ctx.check(np.shape(got) == (6,) and np.all(got[4:] == 0), f'result {got}')
    s = at.get_s_pos(sc.RING)
    circ = s[-1]
    s1, s2 = s[bpms[-1]] - circ, s[bpms[0]]
    for p in range(2):
        a, b = turns[2 * p, -2, 0], turns[2 * p, 0, 1]
        slope = (b - a) / (s2 - s1)
        ctx.close(got[2 * p + 1], -slope, f'angle in plane {p}', rtol=1e-7, atol=1e-13)
        ctx.close(got[2 * p], -(a - slope * s1), f'position in plane {p}', rtol=1e-7, atol=1e-12)
        if straight:
            ctx.close(got[2 * p], -turns[2 * p, -1, 0], f'position at the injection point in plane {p}', rtol=1e-3, atol=1e-9 + 5e-3 * max(abs(a), abs(b)))
            ctx.close(got[2 * p + 1], -turns[2 * p + 1, -1, 0], f'angle at the injection point in plane {p}', rtol=1e-2, atol=1e-8 + 5e-3 * abs(slope))
    ctx.sig(straight, sc.INJ.nTurns, ctx.idx)


SCENARIOS = dict(trajectory=Scenario(trajectory, 120, 2500), with_errors=Scenario(with_errors, 60, 1200), lost_beam=Scenario(lost_beam, 60, 1000), silent=Scenario(silent, 48, 800), drift=Scenario(drift, 100, 2500))
