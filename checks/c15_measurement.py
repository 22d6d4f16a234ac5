"""C15: measured responses compared with readings taken on independent copies of the machine; full-state comparison before and after."""
import numpy as np
from vlib import gen, snap
from vlib.common import Scenario, Inconclusive
from pySC.core.beam import bpm_reading
from pySC.correction.loco import measure_closed_orbit_response_matrix
from pySC.lattice_properties.response_measurement import response_matrix, dispersion

PID = 'C15'
RULE = ('random machines without noise and jitter (good or partial beam reach), random initial corrector setpoints including setpoints at the limits, amplitudes, step counts, '
        'fit orders, modes and subsets; each column of the measured matrix is recomputed from readings of deep copies at the reported '
        'steps; small-step measurements are compared with central differences. The machine is compared exactly before and '
        'after. Distinct by settings; non-trivial when at least one column is not zero.')
ASSUMPTIONS = ['setpoints are restored up to rounding']


def quiet(sc):
    sc.INJ.randomInjectionZ = np.zeros(6)
    for i in sc.ORD.BPM:
        sc.RING[i].Noise, sc.RING[i].NoiseCO, sc.RING[i].SumError = np.zeros(2), np.zeros(2), 0.0


def machine(ctx, mode=None, reach=None, n_cav=1):
    rng = ctx.rng
    mode = mode or str(rng.choice(['TBT', 'TBT', 'ORB', 'PORB']))
    reach = (rng.random() < 0.3 and mode != 'ORB') if reach is None else reach
    ap = [6e-3, 6e-3] if reach else None
    corr = bool(rng.random() < 0.4)
    sc, o = gen.make_sc(rng, dict(corr_elements=corr, apertures=ap, n_cav=n_cav), noise=False, scale=float(rng.choice([0.3, 1.0])), cm_limit=3e-3 if reach else float(rng.choice([1e-4, 1e-3])))
    quiet(sc)
    if rng.random() < 0.5:
        i = sc.ORD.BPM[int(rng.integers(len(sc.ORD.BPM)))]
        sc.RING[i].CalError = rng.normal(0, 0.3, 2)
        sc.RING[i].Roll = 0.5
    for plane, c in enumerate(sc.ORD.CM):
        lim = np.array([sc.RING[i].CMlimit[plane] for i in c])
        k = int(rng.integers(4))
        start = rng.uniform(-1, 1, len(c)) * lim * (0.03 if k == 0 else 0.1)
        at_lim = rng.random(len(c)) < (0.3 if k == 2 else 0.05)
        start[at_lim] = lim[at_lim] * rng.choice([-1, 1, 0.9999], int(at_lim.sum()))
        if mode in ('ORB', 'PORB'):
            start *= 0.1
            start[at_lim] *= 10
        sc.set_cm_setpoints(c, start, bool(plane))
    if reach:
        z0 = sc.INJ.Z0.copy()
        for _ in range(12):  # some beam at some monitors
            sc.INJ.Z0 = z0 + rng.uniform(-1, 1, 6) * np.array([4e-3, 6e-4, 4e-3, 6e-4, 0, 0])
            if 0.3 < np.mean(~np.isnan(bpm_reading(sc)[0])):
                break
    sc.INJ.trackMode = mode
    sc.INJ.nTurns = int(rng.integers(1, 4)) if mode != 'ORB' else 1
    sc.INJ.nParticles, sc.INJ.nShots = 1, int(rng.choice([1, 1, 2]))
    return sc, o, mode, reach


def restored(ctx, before, sc, what):
    d = snap.diff(before, snap.machine(sc), rtol=1e-12, atol=1e-14)
    ctx.check(not d, f'{what} changed the machine: {snap.describe(d)}')


def subset(rng, a, n):
    n = min(len(a), int(rng.integers(1, n + 1)))
    return rng.choice(a, n, replace=False)


def read(sc, bpms):
    return np.ravel(bpm_reading(sc, bpm_ords=bpms)[0])


def shortened(ctx):
    """Large kicks in a narrow chamber: steps that would lose the beam are shortened."""
    matrix(ctx, True)


def matrix(ctx, lossy=False):
    rng = ctx.rng
    sc, o, mode, reach = machine(ctx, 'TBT' if lossy else None, True if lossy else None)
    bpms = np.sort(subset(rng, sc.ORD.BPM, len(sc.ORD.BPM)))
    cms = [subset(rng, sc.ORD.HCM, 4), subset(rng, sc.ORD.VCM, 4)]
    how = 'fixedKick' if lossy or rng.random() < 0.75 else 'fixedOffset'
    steps = int(rng.choice([2, 2, 3, 4, 5]))
    order = 1 if steps == 2 else int(rng.choice([1, 1, 2]))
    mag = float(10 ** (rng.uniform(-3.2, -2.6) if lossy else rng.uniform(-3.5, -2.6) if reach else rng.uniform(-6, -3.3))) if how == 'fixedKick' else float(10 ** rng.uniform(-4.5, -3.5))
    amp = mag if rng.random() < 0.5 else [mag * rng.uniform(0.3, 1, len(c)) for c in cms]
    try:
        bref = read(sc.very_deep_copy(), bpms)
    except Exception:
        raise
    ctx.note(mode=mode, reach=reach, how=how, steps=steps, order=order, amplitude=mag, turns=sc.INJ.nTurns, missing=int(np.isnan(bref).sum()))
    before = snap.machine(sc)
    if mode == 'ORB' and np.any(np.isnan(bref)):
        ctx.raises(ValueError, lambda: response_matrix(sc, amp, bpms, cms, how, steps, order), 'no closed orbit')
        restored(ctx, before, sc, 'failing response_matrix')
        ctx.sig('no orbit')
        return
    rm, err, cm_steps = response_matrix(sc, amp, bpms, cms, mode=how, n_steps=steps, fit_order=order)
    restored(ctx, before, sc, 'response_matrix')
    n_turns = sc.INJ.nTurns
    ctx.check(rm.shape == (2 * len(bpms) * n_turns, len(cms[0]) + len(cms[1])), f'shape {rm.shape}') if mode != 'PORB' else None
    amps = amp if isinstance(amp, list) else [amp * np.ones(len(c)) for c in cms]
    col = 0
    scale = np.nanmax(np.abs(rm)) if rm.size else 1.0
    for plane in range(2):
        for j, cm in enumerate(cms[plane]):
            lim = sc.RING[cm].CMlimit[plane]
            start = float(np.ravel(sc.get_cm_setpoints(int(cm), bool(plane)))[0])
            dcm = np.array(cm_steps[plane][:, j])
            c = sc.very_deep_copy()

            def at(step):
                c.set_cm_setpoints(int(cm), start + step, bool(plane))
                got = float(np.ravel(c.get_cm_setpoints(int(cm), bool(plane)))[0])
                ctx.check(abs(got - start - step) <= 1e-9 * lim + 1e-16, f'reported step {step} from {start} cannot be set within {lim}')
                return read(c, bpms) - bref
            where = f'corrector {cm} plane {plane} step {dcm} from {start} limit {lim} ({how}, {steps} steps)'
            ctx.event('columns')
            if how == 'fixedKick':
                ctx.check(np.max(np.abs(dcm)) <= amps[plane][j] * (1 + 1e-9), f'{where}: larger than requested {amps[plane][j]}')
                a = amps[plane][j]
                free = [s for s in (a, -a) if abs(start + s) < lim * (1 - 1e-6)]
                ok = [s for s in free if np.sum(~np.isnan(at(s))) >= np.sum(~np.isnan(bref))]
                if free and free[0] == a and ok and ok[0] == a:
                    ctx.check(abs(dcm[-1] - a) <= 1e-9 * a, f'{where}: requested step {a} is possible')
                    ctx.event('full steps')
                elif abs(start + a) > lim * (1 + 1e-6):
                    ctx.check(dcm[-1] <= 0, f'{where}: towards the limit')
                    ctx.event('opposite direction')
                if abs(start) + a < lim * (1 - 1e-6) and not ok:  # beam lost with the requested step: a shorter one that keeps it has to be used
                    if any(np.sum(~np.isnan(at(a * 0.9 ** k))) >= np.sum(~np.isnan(bref)) for k in range(1, 20)):
                        ctx.check(np.sum(~np.isnan(at(dcm[-1]))) >= np.sum(~np.isnan(bref)), f'{where}: measured with less beam than without kick, although a shorter step keeps it')
                        ctx.event('shortened steps')
            elif mode != 'PORB' and not np.any(np.isnan(bref)) and abs(start) + 1.1 * abs(dcm[-1]) < lim:
                top = np.max(np.abs(at(dcm[-1])))
                ctx.event('offset steps')
                ctx.check(not np.isfinite(top) or top == 0 or 0.8 * amps[plane][j] <= top <= 1.25 * amps[plane][j], f'{where}: largest reading change {top}, requested {amps[plane][j]}')
            g = np.array([at(s) for s in dcm])
            lost = np.isnan(g).sum() > np.isnan(bref).sum() * len(g)
            ctx.event('columns with shortened reach', lost)
            if np.max(np.abs(dcm)) < 1e-12 * lim:
                ctx.event('blocked correctors')
                col += 1
                continue
            if steps == 2:
                ctx.check(dcm[0] == dcm[1], f'{where}: steps differ')
                want = g[1] / dcm[1]
                want[np.isnan(want)] = 0
                ctx.close(rm[:, col], want, f'{where}: column', rtol=1e-6, atol=1e-6 * scale + 1e-12 / abs(dcm[1]))
            else:
                want = np.zeros(len(bref))
                werr = np.full(len(bref), np.nan)
                for b in range(len(bref)):
                    m = ~np.isnan(g[:, b])
                    if len(np.unique(np.round(dcm[m] / lim, 9))) > order:
                        v = np.vander(dcm[m], order + 1)
                        p = np.linalg.lstsq(v / np.max(np.abs(v), axis=0), g[m, b], rcond=None)[0] / np.max(np.abs(v), axis=0)
                        want[b] = p[order - 1]
                        werr[b] = np.sqrt(np.mean((want[b] * dcm[m] - g[m, b]) ** 2))
                    elif np.any(m):
                        want[b] = werr[b] = np.inf  # not determined
                det = np.isfinite(want)
                tol = 1e-5 * scale + 1e-12 / np.max(np.abs(dcm))
                ctx.close(rm[det, col], want[det], f'{where}: column', rtol=1e-5, atol=tol)
                ok = det & np.isfinite(werr)
                ctx.close(err[ok, col], werr[ok], f'{where}: error', rtol=1e-3, atol=tol * np.max(np.abs(dcm)) + 1e-12)
            col += 1
    if np.any(rm):
        ctx.sig(mode, how, steps, order, round(mag, 9), ctx.idx)


def derivative(ctx):
    rng = ctx.rng
    sc, o, mode, reach = machine(ctx, reach=False)
    bpms = np.sort(subset(rng, sc.ORD.BPM, len(sc.ORD.BPM)))
    cms = [subset(rng, sc.ORD.HCM, 3), subset(rng, sc.ORD.VCM, 3)]
    if mode == 'PORB':
        sc.INJ.nTurns = 1
    steps = int(rng.choice([2, 3, 4]))
    if np.any(np.isnan(read(sc, bpms))):
        ctx.note(skipped='beam lost')
        return
    rm = response_matrix(sc, 1e-8, bpms, cms, n_steps=steps)[0]
    col = 0
    for plane in range(2):
        for cm in cms[plane]:
            c = sc.very_deep_copy()
            start = float(np.ravel(c.get_cm_setpoints(int(cm), bool(plane)))[0])
            c.RING[cm].CMlimit = np.ones(2)
            h = 1e-6
            c.set_cm_setpoints(int(cm), start + h, bool(plane))
            up = read(c, bpms)
            c.set_cm_setpoints(int(cm), start - h, bool(plane))
            want = (up - read(c, bpms)) / (2 * h)
            scale = np.max(np.abs(want))
            ctx.close(rm[:, col], want, f'{mode}: derivative for corrector {cm} plane {plane}, {steps} steps', rtol=1e-3, atol=2e-3 * scale + (2e-2 if mode == 'ORB' else 1e-4))
            ctx.event('derivatives')
            col += 1
    ctx.note(mode=mode, steps=steps)
    ctx.sig(mode, steps, ctx.idx)


def rf(ctx):
    rng = ctx.rng
    mode = str(rng.choice(['ORB', 'ORB', 'TBT', 'TBT']))
    sc, o, mode, reach = machine(ctx, mode=mode, reach=False, n_cav=1 if mode == 'ORB' else int(rng.integers(1, 4)))
    if len(sc.ORD.RF) > 1 and rng.random() < 0.7:   # each cavity at its own frequency
        sc.set_cavity_setpoints(sc.ORD.RF, rng.normal(0, 100, len(sc.ORD.RF)), 'Frequency', 'add')
    if rng.random() < 0.5:
        sc.set_cavity_setpoints(sc.ORD.RF, float(rng.normal(0, 100)), 'Frequency', 'add')
    bpms = None if rng.random() < 0.2 else np.sort(subset(rng, sc.ORD.BPM, len(sc.ORD.BPM)))
    cavs = None if rng.random() < 0.5 else np.sort(subset(rng, sc.ORD.RF, len(sc.ORD.RF)))
    moved = sc.ORD.RF if cavs is None else cavs
    steps = int(rng.choice([2, 2, 3, 4, 5]))
    df = float(rng.choice([-1, 1]) * 10 ** rng.uniform(1, 3))
    used = sc.ORD.BPM if bpms is None else bpms
    before = snap.machine(sc)
    eta = dispersion(sc, df, bpm_ords=bpms, cav_ords=cavs, n_steps=steps)
    restored(ctx, before, sc, 'dispersion')
    ref = read(sc.very_deep_copy(), used)
    f0 = np.array([sc.RING[i].FrequencySetPoint for i in moved], dtype=float).ravel()
    cal = sc.RING[sc.ORD.RF[0]].FrequencyCalError

    def at(d):
        c = sc.very_deep_copy()
        c.set_cavity_setpoints(moved, f0 + d, 'Frequency', 'abs')
        return read(c, used) - ref
    if np.any(np.isnan(ref)) or np.any(np.isnan(at(df))) or np.any(np.isnan(at(-df))):
        ctx.note(skipped='beam lost')
        return
    if steps == 2:
        want = at(df) / df
    else:
        x = np.linspace(-df, df, steps)
        g = np.array([at(d) for d in x])
        want = x @ g / (x @ x)
    scale = np.max(np.abs(want))
    ctx.close(eta, want, f'{mode}: dispersion with {steps} steps of {df}', rtol=1e-4, atol=1e-4 * scale + 2e-10 / abs(df))
    h = 20.0
    cen = (at(h) - at(-h)) / (2 * h)
    if mode == 'ORB' and abs(df) < 200:
        ctx.close(eta, cen, f'{mode}: dispersion derivative', rtol=0.05, atol=0.05 * np.max(np.abs(cen)) + 2e-10 / abs(df))
        ctx.event('derivatives')
    ctx.note(mode=mode, steps=steps, df=df, cal=cal)
    ctx.sig(mode, steps, df)


def closed_orbit(ctx):
    rng = ctx.rng
    sc, o, mode, reach = machine(ctx, reach=False)
    bpms = np.sort(subset(rng, sc.ORD.BPM, len(sc.ORD.BPM)))
    cms = [subset(rng, sc.ORD.HCM, 3), subset(rng, sc.ORD.VCM, 3)]
    dk = float(10 ** rng.uniform(-6, -4.3))
    before = snap.machine(sc)
    rm = measure_closed_orbit_response_matrix(sc, bpms, cms, dk)
    after = snap.machine(sc)
    for d in (before, after):  # the tracking mode becomes ORB with its turns and particles
        for k in ('trackMode', 'nTurns', 'nParticles'):
            d['INJ'].pop(k)
    dd = snap.diff(before, after, rtol=1e-12, atol=1e-14)
    ctx.check(not dd, f'measurement changed the machine: {snap.describe(dd)}')
    c = sc.very_deep_copy()
    c.INJ.trackMode = 'ORB'
    ref = read(c, bpms)
    if np.any(np.isnan(ref)):
        ctx.note(skipped='no orbit')
        return
    col = 0
    for plane in range(2):
        for cm in cms[plane]:
            start = float(np.ravel(c.get_cm_setpoints(int(cm), bool(plane)))[0])
            lim = sc.RING[cm].CMlimit[plane]
            d = dk if abs(start + dk) <= lim else -dk
            c.set_cm_setpoints(int(cm), start + d, bool(plane))
            got = float(np.ravel(c.get_cm_setpoints(int(cm), bool(plane)))[0]) - start
            want = (read(c, bpms) - ref) / got
            c.set_cm_setpoints(int(cm), start, bool(plane))
            if not np.any(np.isnan(want)):
                ctx.close(rm[:, col], want, f'closed orbit response of corrector {cm} plane {plane} from {start} limit {lim} kick {dk}',
                          rtol=0.02, atol=0.02 * np.max(np.abs(want)) + 2e-8 / dk * 1e-1)
                ctx.event('columns')
                ctx.event('limited correctors', d < 0)
            col += 1
    ctx.note(kick=dk, mode=mode)
    ctx.sig(dk)


def malformed(ctx):
    rng = ctx.rng
    sc, o, mode, reach = machine(ctx, mode='TBT')
    bpms = sc.ORD.BPM[:3]
    cms = [sc.ORD.HCM[:2], sc.ORD.VCM[:3]]
    before = snap.machine(sc)
    for bad in (np.array([1e-5, 1e-5]), [np.array([1e-5]), 1e-5 * np.ones(3)], [1e-5 * np.ones(2), 1e-5 * np.ones(2)]):
        ctx.raises(ValueError, lambda: response_matrix(sc, bad, bpms, cms), f'amplitude {bad}')
    ctx.raises(ValueError, lambda: response_matrix(sc, 1e-5, np.array([int(o['qf'][0])]), cms), 'no monitors')
    restored(ctx, before, sc, 'malformed request')
    ctx.sig(ctx.idx)


SCENARIOS = dict(matrix=Scenario(matrix, 100, 1500), shortened=Scenario(shortened, 48, 600), derivative=Scenario(derivative, 48, 500), rf=Scenario(rf, 72, 800),
                 closed_orbit=Scenario(closed_orbit, 48, 600), malformed=Scenario(malformed, 6, 30))
