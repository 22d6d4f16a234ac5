"""C18: geometric oracle (tracking through the magnets of the aligned machine), full-state comparison and fault injection around alignment runs."""
import numpy as np
import at
from vlib import gen, snap
from vlib.common import Scenario, Inconclusive, Skip
from pySC.core.beam import bpm_reading
from pySC.correction.bba import trajectory_bba, orbit_bba, fake_bba
from pySC.correction import orbit_trajectory
from pySC.core.classes import DotDict
from pySC.lattice_properties.response_model import SCgetModelRM
from pySC.correction import bba as bba_module

PID = 'C18'
RULE = ('random machines with and without noise, monitor calibration and roll errors, pairs of monitors and quadrupoles, skew quadrupoles or sextupoles, phase-advance '
        'scans, apertures that stop the beam at random places, transient beam losses; after each run the beam is scanned again on a '
        'noise-free copy. Distinct by settings and machine.')
ASSUMPTIONS = ['precision: the returned error, the calibration and roll error of the monitor times the correction, 20 um for thick magnets',
               'acceptance limits: |offset| <= 1.5 mm and at least 2.5 times its error']


def machine(ctx, noise=None, sext=None, ap=None, cal=None, scale=1.0, **kw):
    rng = ctx.rng
    noise = bool(rng.random() < 0.4) if noise is None else noise
    sext = bool(rng.random() < 0.3) if sext is None else sext
    sc, o = gen.make_sc(rng, dict(sext=(3.0, -4.0) if sext else (0.0, 0.0), apertures=ap, corr_elements=bool(rng.random() < 0.3)), noise=noise, scale=scale, **kw)
    if not noise:
        sc.INJ.randomInjectionZ = np.zeros(6)
    cal = bool(rng.random() < 0.4) if cal is None else cal
    if not cal:
        for i in sc.ORD.BPM:
            sc.RING[i].CalError, sc.RING[i].Roll, sc.RING[i].SupportRoll = np.zeros(2), 0.0, np.zeros(1)
    sc.INJ.nTurns, sc.INJ.nParticles, sc.INJ.nShots, sc.INJ.trackMode = 2, 1, 1, 'TBT'
    return sc, o, noise, sext, cal


def pairs(ctx, sc, o, n, tight=False):
    """Per plane n different monitors with a quadrupole close by."""
    rng = ctx.rng
    quads = np.sort(np.concatenate((o['qf'], o['qd'])))
    bp = np.zeros((2, n), dtype=int)
    mg = np.zeros((2, n), dtype=int)
    for p in range(2):
        cand = sc.ORD.BPM[::2] if tight else sc.ORD.BPM
        bp[p] = rng.choice(cand[:max(n, len(cand) - 2)], n, replace=False)
        if rng.random() < 0.5:
            bp[p] = np.sort(bp[p])
        for j in range(n):
            mg[p, j] = quads[int(np.argmin(np.abs(quads - bp[p, j])))]
    return bp, mg


def offsets(sc, bpms):
    return np.array([[sc.RING[bpms[p, j]].Offset[p] for j in range(bpms.shape[1])] for p in range(bpms.shape[0])], dtype=float)


def only_offsets(ctx, before, sc, bpms, what, flagged=None):
    ok = {(int(bpms[p, j]), p) for p in range(bpms.shape[0]) for j in range(bpms.shape[1]) if flagged is None or flagged[p, j]}
    for path, a, b in snap.diff(before, snap.machine(sc), rtol=1e-10, atol=1e-12):
        idx = next((x for x in path if isinstance(x, (int, np.integer))), None)
        comp = path[-1][-1] if isinstance(path[-1], tuple) else path[-1]
        ctx.check(path[0] == 'RING' and 'Offset' in path and (int(idx), int(comp)) in ok, f'{what} changed {path}: {a} -> {b}')


def quiet(sc):
    c = sc.very_deep_copy()
    c.INJ.randomInjectionZ = np.zeros(6)
    c.INJ.postFun = lambda z: z
    for i in c.ORD.BPM:
        c.RING[i].Noise, c.RING[i].NoiseCO, c.RING[i].SumError = np.zeros(2), np.zeros(2), 0.0
    return c


def zero_crossing(ctx, sc, bpm, mag, plane, max_kick, slope=False):
    """Reading of the monitor where the beam passes the centre of the magnet, while the injected beam is scanned as documented."""
    c = quiet(sc)
    c.INJ.nTurns = 1
    idx = int(np.where(c.ORD.BPM == bpm)[0][0])
    m = c.RING[mag]
    centre = float(m.MagnetOffset[plane] + m.SupportOffset[plane])
    xs, rs = [], []
    z0 = c.INJ.Z0.copy()
    for f in (-0.2, -0.1, 0.0, 0.1, 0.2):
        z = z0.copy()
        z[2 * plane:2 * plane + 2] += f * max_kick
        c.INJ.Z0 = z
        r = bpm_reading(c)[0][plane, idx]
        part = at.lattice_track(list(c.RING), np.asfortranarray(z.reshape(6, 1)), 1, refpts=np.array([mag, mag + 1]))[0]
        xs.append(np.mean(part[2 * plane, 0, :, 0]) - centre)
        rs.append(r)
    xs, rs = np.array(xs), np.array(rs)
    if not (np.all(np.isfinite(xs)) and np.all(np.isfinite(rs))) or np.ptp(xs) < max(1e-5, 0.25 * np.ptp(rs)):
        return None  # the scan hardly moves the beam in the magnet
    fit = np.polyfit(xs, rs, 1)
    return (float(fit[1]), float(fit[0])) if slope else float(fit[1])


def flags(off, err):
    """(accepted, rejected) where the documented limits are clear."""
    with np.errstate(invalid='ignore'):
        good = np.isfinite(off) & (np.abs(off) <= 1.5e-3 * (1 - 1e-6)) & (np.abs(off) > 2.5 * err * (1 + 1e-6))
        bad = np.isnan(off) | (np.abs(off) > 1.5e-3 * (1 + 1e-6)) | (np.abs(off) < 2.5 * err * (1 - 1e-6))
    return good, bad


def judge(ctx, sc, before, first, bpms, out, what):
    ctx.check(isinstance(out, tuple) and len(out) == 3 and out[0] is sc, f'{what}: returned {type(out)}')
    off, err = np.asarray(out[1], dtype=float), np.asarray(out[2], dtype=float)
    ctx.check(off.shape == bpms.shape and err.shape == bpms.shape, f'{what}: shapes {off.shape}, {err.shape}')
    only_offsets(ctx, before, sc, bpms, what)
    good, bad = flags(off, err)
    now = offsets(sc, bpms)
    for p in range(bpms.shape[0]):
        for j in range(bpms.shape[1]):
            if list(bpms[p]).count(bpms[p, j]) > 1:
                continue
            change = now[p, j] - first[p, j]
            if bad[p, j]:
                ctx.check(change == 0, f'{what}: offset of monitor {bpms[p, j]} plane {p} moved by {change} after a failed measurement ({off[p, j]} +- {err[p, j]})')
                ctx.event('measurements rejected')
            elif good[p, j]:
                ctx.close(change, off[p, j], f'{what}: change of the offset of monitor {bpms[p, j]} plane {p}', rtol=1e-9, atol=1e-14)
                ctx.event('offsets moved')
    flagged = bba_module.is_bba_errored(off, err)
    ctx.check(not np.any(flagged & good) and not np.any(~flagged & bad), f'{what}: flags {flagged}, {off}, {err}')
    return off, err, good


class Settings:
    """Injection hook recording the quadrupole components every shot was taken with."""

    def __init__(self, sc, order, skewness):
        self.sc, self.order, self.name, self.log = sc, order, 'SetPointA' if skewness else 'SetPointB', []
        self.ords = [int(i) for i in sc.ORD.Magnet]

    def __deepcopy__(self, memo):
        return lambda z: z

    def now(self):
        r = self.sc.RING
        return np.array([[getattr(r[i], self.name)[self.order] if len(getattr(r[i], self.name)) > self.order else 0.0, r[i].SetPointB[1]] for i in self.ords])

    def __call__(self, z):
        self.log.append(self.now())
        return z


def shots_as_requested(ctx, rec, start, mags, strengths, phase_q, phase_f, what):
    """Every shot is taken with the start settings, except one of the selected magnets at one of its requested strengths and the phase quadrupoles at one of theirs."""
    pq = [rec.ords.index(int(i)) for i in phase_q]
    sel = {rec.ords.index(int(m)) for m in np.ravel(mags)}
    for k, now in enumerate(rec.log):
        d = np.abs(now - start)
        moved = set(np.nonzero(np.any(d > 1e-10 * (1 + np.abs(start)), axis=1))[0].tolist())
        ctx.check(moved <= sel | set(pq), f'{what}: shot {k} was taken with changed magnets {[rec.ords[i] for i in sorted(moved - sel - set(pq))]}')
        one = moved & sel - set(pq)
        ctx.check(len(one) <= 1, f'{what}: shot {k} was taken with several changed magnets')
        for i in one:
            ok = [w for p in range(mags.shape[0]) for j in range(mags.shape[1]) if rec.ords.index(int(mags[p, j])) == i for w in strengths[p, j]]
            ctx.check(np.min(np.abs(np.array(ok) - now[i, 0])) < 1e-9 * (1 + abs(now[i, 0])), f'{what}: shot {k} with magnet {rec.ords[i]} at {now[i, 0]}, requested {ok}')
        if pq and not set(pq) & sel:
            nom = np.array([rec.sc.RING[int(i)].NomPolynomB[1] for i in phase_q])
            ok = [start[pq, 1]] + [float(x) * nom for x in np.ravel(phase_f)]
            ctx.check(any(np.allclose(now[pq, 1], x, rtol=1e-9, atol=0) for x in ok), f'{what}: shot {k} with the phase quadrupoles at {now[pq, 1]}, started from {start[pq, 1]}')
    ctx.event('shots checked', len(rec.log))


# ---------------------------------------------------------------- measurements which can succeed
def centres(ctx):
    rng = ctx.rng
    sc, o, noise, sext, cal = machine(ctx)
    n = int(rng.integers(1, 4))
    phase = rng.random() < 0.3
    bpms, mags = pairs(ctx, sc, o, n, tight=phase)
    kw = {}
    if rng.random() < 0.5:
        kw['n_steps'] = int(rng.choice([5, 7, 12]))
    form = int(rng.integers(4))
    if form == 1:
        kw['magnet_strengths'] = np.array([0.9, 1.0, 1.1])
    elif form == 2:
        kw['magnet_strengths'] = np.tile(np.array([0.93, 1.04]), bpms.shape + (1,))
    elif form == 3:  # absolute or additive strengths per magnet
        kw['setpoint_method'] = str(rng.choice(['abs', 'add']))
        if kw['setpoint_method'] == 'abs':
            nom = np.array([[sc.RING[mags[p, j]].SetPointB[1] for j in range(n)] for p in range(2)])
            kw['magnet_strengths'] = nom[:, :, None] * np.array([0.95, 1.05])
        else:
            kw['magnet_strengths'] = np.array([-0.03, 0.06])
    if rng.random() < 0.4:
        kw['dipole_compensation'] = bool(rng.random() < 0.5)
    if rng.random() < 0.4:
        kw['num_downstream_bpms'] = int(rng.integers(5, len(sc.ORD.BPM)))
    kick = np.array([9e-4, 9e-4])
    if rng.random() < 0.4:
        kick = np.array([6e-4, 5e-4])
        kw['max_injection_pos_angle'] = kick.copy()
    if phase:
        kw['q_ord_phase'] = rng.choice([o['qf'][:1], o['qd'][:2], o['qf'][1:3]][int(rng.integers(3))], 1) if rng.random() < 0.5 else o['qf'][:2]
        kw['q_ord_setpoints'] = np.array([0.9, 1.0, 1.1])
        kw['q_ord_phase'] = np.array(kw['q_ord_phase'])
    if rng.random() < 0.5:  # machine not at its design settings
        sc.set_magnet_setpoints(np.concatenate((o['qf'], o['qd'])), 1 + 0.01 * rng.standard_normal(len(o['qf']) + len(o['qd'])), False, 1, 'rel')
        sc.set_cm_setpoints(sc.ORD.HCM, 2e-5 * rng.standard_normal(len(sc.ORD.HCM)), False, 'add')
        sc.set_cm_setpoints(sc.ORD.VCM, 2e-5 * rng.standard_normal(len(sc.ORD.VCM)), True, 'add')
    saved = {k: np.copy(v) for k, v in kw.items() if isinstance(v, np.ndarray)}
    b0, m0 = bpms.copy(), mags.copy()
    rec = None
    if rng.random() < 0.6:
        rec = sc.INJ.postFun = Settings(sc, 1, False)
        start = rec.now()
        strengths = np.asarray(kw.get('magnet_strengths', np.array([0.95, 1.05])))
        strengths = np.tile(strengths, bpms.shape + (1,)) if strengths.ndim < 2 else strengths.copy()
        q = np.array([[sc.RING[m].SetPointB[1] for m in row] for row in mags])[:, :, None]
        how = kw.get('setpoint_method', 'rel')
        if how == 'add':  # one after the other
            strengths = q + np.cumsum(strengths, axis=2)
        elif how == 'rel':
            strengths = strengths * np.array([[sc.RING[m].NomPolynomB[1] for m in row] for row in mags])[:, :, None]
        strengths = np.concatenate((strengths, q), axis=2)
    before, first = snap.machine(sc), offsets(sc, bpms)
    ctx.note(noise=noise, sext=sext, cal=cal, n=n, bpms=bpms.tolist(), mags=mags.tolist(), **{k: (v if not isinstance(v, np.ndarray) or v.size < 5 else str(v.shape)) for k, v in kw.items()})
    old = sc.very_deep_copy()
    out = trajectory_bba(sc, bpms, mags, **kw)
    if rec is not None:
        sc.INJ.postFun = lambda z: z
        before['INJ']['postFun'] = snap.machine(sc)['INJ'].get('postFun')
        if not phase or not set(np.ravel(kw['q_ord_phase'])) & set(mags.ravel()):
            shots_as_requested(ctx, rec, start, mags, strengths, kw.get('q_ord_phase', []), kw.get('q_ord_setpoints', [1.0]), 'alignment')
    off, err, good = judge(ctx, sc, before, first, bpms, out, 'alignment')
    ctx.check(np.array_equal(bpms, b0) and np.array_equal(mags, m0) and all(np.array_equal(saved[k], kw[k]) for k in saved), 'arguments changed')
    used = 0
    for p in range(2):
        for j in range(n):
            if not good[p, j]:
                continue
            r = sc.RING[bpms[p, j]]
            tol = 2e-5 + (15 if noise else 6) * err[p, j] + (abs(r.CalError[p]) + abs(float(np.ravel(r.Roll)[0])) + 1e-3) * abs(off[p, j]) * 2
            if sext:
                tol += 2e-5
            if noise:
                tol += 5e-5
            if noise and err[p, j] > 1e-5:
                continue
            got = zero_crossing(ctx, sc, bpms[p, j], mags[p, j], p, kick)
            if phase:  # the best of the documented settings is used
                alt = []
                for q in kw['q_ord_setpoints']:
                    c = sc.very_deep_copy()
                    c.set_magnet_setpoints(kw['q_ord_phase'], float(q), False, 1, 'rel', dipole_compensation=True)
                    alt.append(zero_crossing(ctx, c, bpms[p, j], mags[p, j], p, kick))
                got = min(alt, key=abs) if all(a is not None for a in alt) else None
            if got is None:
                continue
            was = got + off[p, j]
            used += 1
            ctx.check(abs(got) < tol or (noise and abs(got) < 0.35 * abs(was)), f'monitor {bpms[p, j]} plane {p} reads {got:.3g} where the beam passes the centre of magnet {mags[p, j]} '
                      f'(returned {off[p, j]:.3g} +- {err[p, j]:.2g}, tolerance {tol:.2g})')
            if abs(was) > 3 * tol:
                ctx.event('monitors clearly improved')
    ctx.event('centres verified', used)
    if not noise and np.sum(good) < n:
        enough(ctx, old, bpms, mags, good, off, err, kick)
    ctx.sig(noise, sext, cal, bpms.tolist(), kw.get('n_steps'), form, phase)


def enough(ctx, old, bpms, mags, good, off, err, kick):
    """Of the noise-free measurements whose true answer is neither beyond the limit nor tiny, half have to be accepted."""
    clear = np.zeros(bpms.shape, dtype=bool)
    for p in range(bpms.shape[0]):
        for j in range(bpms.shape[1]):
            t = zero_crossing(ctx, old, bpms[p, j], mags[p, j], p, kick)
            clear[p, j] = t is not None and 5e-5 < abs(t) < 1.2e-3
    ctx.check(np.sum(good) >= np.sum(clear) - bpms.shape[1], f'noise-free measurement accepted {int(np.sum(good))} of {int(np.sum(clear))}: {off}, {err}')


def skew(ctx):
    rng = ctx.rng
    sc, o, noise, _, cal = machine(ctx, sext=bool(rng.random() < 0.5))
    n = int(rng.integers(1, 3))
    bpms = np.zeros((2, n), dtype=int)
    mags = np.zeros((2, n), dtype=int)
    for p in range(2):
        cells = rng.choice(len(o['sf']) - 1, n, replace=False)
        mags[p] = o['sf'][cells]
        bpms[p] = [sc.ORD.BPM[sc.ORD.BPM > m][0] for m in mags[p]]
    if rng.random() < 0.6:  # skew and normal quadrupole components which differ
        for m in np.unique(mags):
            sc.set_magnet_setpoints(m, float(rng.uniform(-0.01, 0.01)), True, 1, 'abs')
            if rng.random() < 0.5:
                sc.set_magnet_setpoints(m, float(rng.uniform(-0.02, 0.02)), False, 1, 'abs')
        ctx.event('skew quadrupoles in use')
    k0 = np.array([[sc.RING[m].SetPointA[1] for m in row] for row in mags])
    how, strengths = 'abs', np.array([-0.08, 0.08])
    if rng.random() < 0.5:
        how, strengths = 'add', np.array([-0.06, 0.12])
    rec = None
    if rng.random() < 0.6:
        rec = Settings(sc, 1, True)
        sc.INJ.postFun = rec
        start = rec.now()
    before, first = snap.machine(sc), offsets(sc, bpms)
    ctx.note(noise=noise, cal=cal, bpms=bpms.tolist(), how=how)
    old = sc.very_deep_copy()
    out = trajectory_bba(sc, bpms, mags, skewness=True, magnet_order=1, setpoint_method=how, magnet_strengths=strengths.copy(), dipole_compensation=bool(rng.random() < 0.5))
    if rec is not None:
        sc.INJ.postFun = lambda z: z
        before['INJ']['postFun'] = snap.machine(sc)['INJ'].get('postFun')
        want = np.concatenate((k0[:, :, None] + np.cumsum(strengths) if how == 'add' else np.tile(strengths, mags.shape + (1,)), k0[:, :, None]), axis=2)
        shots_as_requested(ctx, rec, start, mags, want, [], [1.0], 'alignment to skew quadrupoles')
    off, err, good = judge(ctx, sc, before, first, bpms, out, 'alignment to skew quadrupoles')
    for p in range(2):
        for j in range(n):
            if good[p, j] and not noise:
                got = zero_crossing(ctx, sc, bpms[p, j], mags[p, j], p, np.array([9e-4, 9e-4]))
                r = sc.RING[bpms[p, j]]
                tol = 6e-5 + 6 * err[p, j] + (abs(r.CalError[p]) + abs(float(np.ravel(r.Roll)[0])) + 1e-3) * abs(off[p, j]) * 2
                if got is not None:
                    ctx.check(abs(got) < tol, f'monitor {bpms[p, j]} plane {p} reads {got:.3g} at the centre of the skew quadrupole {mags[p, j]} (tolerance {tol:.2g})')
                    ctx.event('centres verified')
    if not noise and np.sum(good) < n:
        enough(ctx, old, bpms, mags, good, off, err, np.array([9e-4, 9e-4]))
    ctx.sig(noise, cal, bpms.tolist())


def sextupole(ctx):
    """Centres of sextupoles in the horizontal plane (second order fit), or of quadrupoles in one plane only."""
    rng = ctx.rng
    quad = bool(rng.random() < 0.3)
    sc, o, noise, _, cal = machine(ctx, noise=False, sext=False)  # no other sextupoles, which distort the measurement
    n = int(rng.integers(1, 3))
    fam = np.concatenate((o['qf'], o['qd'])) if quad else o['sf']
    mags = rng.choice(fam[:-2], (1, n), replace=False)
    bpms = np.array([[sc.ORD.BPM[int(np.argmin(np.abs(sc.ORD.BPM - m)))] for m in mags[0]]])
    k = float(rng.uniform(20, 30))
    start = [float(rng.uniform(-1, 1)) for _ in mags[0]]
    kw = dict(n_steps=int(rng.choice([6, 7, 9])))
    if not quad:
        for m, v in zip(mags[0], start):
            sc.set_magnet_setpoints(int(m), v, False, 2, 'abs')
        kw.update(magnet_order=2, fit_order=2, setpoint_method='abs', magnet_strengths=np.array([-k, k]) if rng.random() < 0.7 else np.array([-k, 0.2 * k, k]))
    before, first = snap.machine(sc), offsets(sc, bpms)
    ctx.note(cal=cal, bpms=bpms.tolist(), mags=mags.tolist(), quad=quad)
    out = trajectory_bba(sc, bpms, mags, **kw)
    off, err, good = judge(ctx, sc, before, first, bpms, out, 'alignment in one plane' if quad else 'alignment to sextupoles')
    for j in range(n):
        if good[0, j] and list(bpms[0]).count(bpms[0, j]) == 1:
            got = zero_crossing(ctx, sc, bpms[0, j], mags[0, j], 0, np.array([9e-4, 9e-4]))
            r = sc.RING[bpms[0, j]]
            tol = 6e-5 + 6 * err[0, j] + (abs(r.CalError[0]) + abs(float(np.ravel(r.Roll)[0])) + 1e-3) * abs(off[0, j]) * 2 + (0 if quad else 0.3 * abs(off[0, j]))
            if got is not None and (quad or abs(got + off[0, j]) < 1e-3):  # further away the measurement extrapolates a parabola
                ctx.check(abs(got) < tol, f'monitor {bpms[0, j]} reads {got:.3g} at the centre of the {"quadrupole" if quad else "sextupole"} {mags[0, j]} (tolerance {tol:.2g}, moved by {off[0, j]:.3g} +- {err[0, j]:.2g})')
                ctx.event('centres verified')
                ctx.event('clearly moved', abs(off[0, j]) > 3 * tol)
    ctx.sig(quad, cal, bpms.tolist(), mags.tolist())


# ---------------------------------------------------------------- measurements which fail
class Flaky:
    """Injection hook losing the beam on some shots (or all of them)."""

    def __init__(self, prob, seed):
        self.prob, self.rng, self.count, self.lost = prob, np.random.default_rng(seed), 0, 0

    def __deepcopy__(self, memo):
        return self

    def __call__(self, z):
        self.count += 1
        if self.rng.random() < self.prob:
            self.lost += 1
            return z + np.nan
        return z


def hostile(ctx):
    rng = ctx.rng
    kind = int(rng.integers(5))
    ap = [float(rng.choice([1e-3, 2e-3, 4e-3]))] * 2 if kind in (0, 1) else None
    sc, o, noise, sext, cal = machine(ctx, ap=ap, noise=True, scale=float(rng.choice([1.0, 2.0])))
    n = int(rng.integers(1, 3))
    bpms, mags = pairs(ctx, sc, o, n)
    kw = dict(n_steps=int(rng.choice([4, 6])))
    if kind == 1:  # beam stops somewhere
        for _ in range(3):
            i = int(rng.integers(len(sc.RING)))
            if isinstance(sc.RING[i], (at.Drift, at.Quadrupole)):
                sc.RING[i].EApertures = np.array([2e-4, 2e-4])
    if kind == 2:
        sc.INJ.postFun = Flaky(float(rng.choice([0.1, 0.3, 0.7, 1.0])), int(rng.integers(2 ** 31)))
    if kind == 3:  # no influence within the noise: nothing to be found
        i = int(rng.integers(n))
        mags[:, i] = o['sd'][0]
        kw['magnet_strengths'] = np.array([1 - 1e-5, 1 + 1e-5])
    if kind == 4:  # monitors far off, implausible result
        for i in bpms.ravel():
            sc.RING[i].Offset = rng.choice([-1, 1], 2) * rng.uniform(1.2e-3, 3e-3, 2)
    z = sc.INJ.Z0
    before, first = snap.machine(sc), offsets(sc, bpms)
    ctx.note(kind=kind, ap=ap, n=n, bpms=bpms.tolist())
    out = trajectory_bba(sc, bpms, mags, **kw)
    if kind == 2:
        ctx.event('shots lost', sc.INJ.postFun.lost)
    off, err, good = judge(ctx, sc, before, first, bpms, out, 'alignment with losses') if kind != 2 else judge_flaky(ctx, sc, before, first, bpms, out)
    ctx.sig(kind, ap, bpms.tolist(), int(np.sum(good)))


def judge_flaky(ctx, sc, before, first, bpms, out):
    f, sc.INJ.postFun = sc.INJ.postFun, None
    try:
        before['INJ']['postFun'] = snap.machine(sc)['INJ'].get('postFun')
        return judge(ctx, sc, before, first, bpms, out, 'alignment with lost shots')
    finally:
        sc.INJ.postFun = f


# ---------------------------------------------------------------- simplified variant
def simplified(ctx):
    rng = ctx.rng
    sc, o, *_ = machine(ctx, cal=True)
    n = int(rng.integers(2, 9))
    bpms, mags = pairs(ctx, sc, o, n)
    if rng.random() < 0.3:
        mags = rng.choice(np.concatenate((o['sf'], o['qd'], o['bend'])), bpms.shape)
    flags_ = None if rng.random() < 0.3 else rng.random(bpms.shape) < rng.choice([0.0, 0.3, 0.7, 1.0])
    fake = None if flags_ is not None and rng.random() < 0.4 else rng.choice([0.0, 1e-6, 5e-5, 1e-3]) * rng.uniform(0.5, 2, 2)
    if flags_ is not None and rng.random() < 0.3:
        flags_ = flags_.astype(float)  # error flags as numbers
    before, first = snap.machine(sc), offsets(sc, bpms)
    true = np.array([[sc.RING[mags[p, j]].MagnetOffset[p] + sc.RING[mags[p, j]].SupportOffset[p] - sc.RING[bpms[p, j]].SupportOffset[p] for j in range(n)] for p in range(2)])
    f = np.ones(bpms.shape, dtype=bool) if flags_ is None else flags_ != 0
    ctx.note(n=n, flagged=int(np.sum(f)), fake=None if fake is None else fake.tolist())
    if fake is None and np.any(np.all(f, axis=1)):
        bound = None
    elif fake is None:
        bound = np.array([np.sqrt(np.mean((first[p] - true[p])[~f[p]] ** 2)) for p in range(2)])
    else:
        bound = fake
    kw = dict()
    if flags_ is not None:
        kw['errors'] = flags_
    if fake is not None:
        kw['fake_offset'] = fake.copy()
    fl0 = None if flags_ is None else flags_.copy()
    out = fake_bba(sc, bpms, mags, **kw)
    ctx.check(out is sc, 'fake_bba returns another machine')
    ctx.check(flags_ is None or np.array_equal(flags_, fl0), 'fake_bba changed the flags')
    only_offsets(ctx, before, sc, bpms, 'simplified alignment', f)
    now = offsets(sc, bpms)
    for p in range(2):
        for j in range(n):
            if not f[p, j]:
                ctx.check(now[p, j] == first[p, j], f'simplified alignment moved monitor {bpms[p, j]}, which is not selected')
            elif bound is not None and np.isfinite(bound[p]):
                ctx.check(abs(now[p, j] - true[p, j]) <= 2 * bound[p] * (1 + 1e-9) + 1e-15, f'monitor {bpms[p, j]} plane {p}: offset {now[p, j]:.6g}, its magnet is at {true[p, j]:.6g}, error bound {2 * bound[p]:.3g}')
                if bound[p] > 0:
                    ctx.check(now[p, j] != true[p, j], 'no random error was added')
            elif bound is None and np.all(f[p]):
                ctx.check(now[p, j] == first[p, j], 'offset moved although no error size is known')
    if bound is not None and fake is not None and n > 2 and np.min(bound) > 0 and np.all(f):
        d = (now - true) / bound[:, None]
        ctx.check(len(np.unique(np.round(d.ravel(), 12))) == d.size, f'random errors are not independent: {d}')
    ctx.event('offsets assigned', int(np.sum(f)))
    ctx.sig(n, bpms.tolist(), f.tolist(), fake is None)


def spread(ctx):
    """Size of the random error of the simplified variant."""
    rng = ctx.rng
    sc, o, *_ = machine(ctx, cal=True)
    bpms = np.tile(sc.ORD.BPM, (2, 1))
    quads = np.sort(np.concatenate((o['qf'], o['qd'])))
    mags = np.array([[quads[int(np.argmin(np.abs(quads - i)))] for i in row] for row in bpms])
    size = np.array([3e-5, 1e-4]) * rng.uniform(0.5, 2)
    true = np.array([[sc.RING[mags[p, j]].MagnetOffset[p] + sc.RING[mags[p, j]].SupportOffset[p] - sc.RING[bpms[p, j]].SupportOffset[p] for j in range(bpms.shape[1])] for p in range(2)])
    d = []
    for _ in range(60):
        fake_bba(sc, bpms, mags, fake_offset=size)
        d.append((offsets(sc, bpms) - true) / size[:, None])
    d = np.array(d)
    for p in range(2):
        v = d[:, p].ravel()
        s = np.std(v)
        # normal distribution cut at two sigma has a standard deviation of 0.880
        ctx.check(abs(s - 0.8796) < 6 * 0.6 / np.sqrt(v.size) and abs(np.mean(v)) < 6 * 0.88 / np.sqrt(v.size), f'random error of the simplified alignment: mean {np.mean(v):.3f}, rms {s:.3f} of the requested size in plane {p}')
    ctx.sig(size.tolist(), bpms.shape[1])


# ---------------------------------------------------------------- rejections
def reject(ctx):
    rng = ctx.rng
    sc, o, *_ = machine(ctx)
    bpms, mags = pairs(ctx, sc, o, 3)
    k = int(rng.integers(6))
    ctx.note(case=k)
    if k == 3:
        sc.INJ.nTurns = int(rng.choice([1, 3]))
    if k == 4:
        sc.INJ.trackMode = str(rng.choice(['ORB', 'PORB']))
    before = snap.machine(sc)
    if k == 0:
        ctx.raises(ValueError, lambda: trajectory_bba(sc, bpms, mags[:, 1:]), 'different numbers of monitors and magnets')
    elif k == 1:
        ctx.raises(ValueError, lambda: trajectory_bba(sc, bpms, mags, fit_order=int(rng.choice([3, 5]))), 'fit order above two')
    elif k == 2:
        ctx.raises(ValueError, lambda: fake_bba(sc, bpms, mags), 'neither flags nor size')
    elif k in (3, 4):
        ctx.raises(ValueError, lambda: trajectory_bba(sc, bpms, mags), f'{sc.INJ.trackMode} with {sc.INJ.nTurns} turns')
    else:
        ctx.raises(ValueError, lambda: trajectory_bba(sc, bpms[:1], mags), 'different shapes')
    d = snap.diff(before, snap.machine(sc))
    ctx.check(not d, f'rejected call changed the machine: {snap.describe(d)}')
    ctx.sig(k, bpms.tolist())


# ---------------------------------------------------------------- closed orbit variant
def orbit_crossing(sc, bpm, mag, plane, cms, bpms, rm, ref):
    """Reading of the monitor where the closed orbit passes the centre of the magnet, while it is scanned by the bump through the monitor."""
    c = quiet(sc)
    use, m = [x.copy() for x in cms], rm
    if mag in use[0]:
        k = int(np.where(use[0] == mag)[0][0])
        use[0], m = np.delete(use[0], k), np.delete(rm, k, 1)
    b = orbit_trajectory.correct(c.very_deep_copy(), m, reference=ref.ravel(), cm_ords=use, bpm_ords=bpms, eps=1e-3, target=0, maxsteps=50)
    v0 = [c.get_cm_setpoints(use[p], skewness=bool(p)) for p in range(2)]
    v1 = [b.get_cm_setpoints(use[p], skewness=bool(p)) for p in range(2)]
    e = c.RING[mag]
    centre = float(e.MagnetOffset[plane] + e.SupportOffset[plane])
    idx = int(np.where(c.ORD.BPM == bpm)[0][0])
    xs, rs = [], []
    for f in (-0.6, -0.3, 0.0, 0.3, 0.6):
        for p in range(2):
            c.set_cm_setpoints(use[p], v0[p] + f * (v1[p] - v0[p]), bool(p))
        rs.append(bpm_reading(c)[0][plane, idx])
        co = at.find_orbit6(c.RING, refpts=np.array([mag, mag + 1]))[1]
        xs.append(np.mean(co[:, 2 * plane]) - centre)
    xs, rs = np.array(xs), np.array(rs)
    if not (np.all(np.isfinite(xs)) and np.all(np.isfinite(rs))) or np.ptp(xs) < 1e-5:
        return None
    return float(np.polyfit(xs, rs, 1)[1])


def bends(ctx):
    """Magnets which also bend the beam: the centre is found with and without compensation of the dipole field that changes with the gradient."""
    rng = ctx.rng
    sc, o, noise, sext, cal = machine(ctx, noise=False, sext=False, cal=False, apply=False)
    angle = {}
    for q in rng.choice(np.concatenate((o['qf'], o['qd'])), int(rng.integers(2, 6)), replace=False):
        angle[int(q)] = float(rng.uniform(3e-5, 2e-4) * rng.choice([1, -1]))
        for r in (sc.RING, sc.IDEALRING):
            r[int(q)].BendingAngle = angle[int(q)]
    q = np.sort(np.array(list(angle)))
    sc.register_magnets(q, CF=1, HCM=5e-3, CalErrorB=np.array([1e-3, 1e-3]), MagnetOffset=np.array([1e-4, 1e-4, 0.0]))
    sc.apply_errors()
    sc.INJ.randomInjectionZ = np.zeros(6)
    comp = bool(rng.random() < 0.5)
    m = q[rng.integers(len(q), size=(2, 1))]
    bpms = np.array([[sc.ORD.BPM[int(np.argmin(np.abs(sc.ORD.BPM - x[0])))]] for x in m])
    if np.any(bpms >= sc.ORD.BPM[-2]):
        raise Skip('no monitors downstream')
    if rng.random() < 0.5:  # additional kicks in the bends are kept
        sc.set_cm_setpoints(q, 2e-5 * rng.standard_normal(len(q)), False, 'add')
    rec = sc.INJ.postFun = Kicks(sc, q)
    base = rec.now()
    before, first = snap.machine(sc), offsets(sc, bpms)
    ctx.note(angle=angle, bpms=bpms.tolist(), mags=m.tolist(), compensation=comp)
    out = trajectory_bba(sc, bpms, m, dipole_compensation=comp, magnet_strengths=np.array([0.96, 1.04]))
    sc.INJ.postFun = lambda z: z
    before['INJ']['postFun'] = snap.machine(sc)['INJ'].get('postFun')
    off, err, good = judge(ctx, sc, before, first, bpms, out, 'alignment in bends')
    for now in rec.log:
        for i, x in enumerate(q):
            f = now[1, i] / sc.RING[int(x)].NomPolynomB[1] - base[1, i] / sc.RING[int(x)].NomPolynomB[1]
            ctx.close(now[0, i] - base[0, i], f * angle[int(x)] if comp else 0.0, f'compensating kick of magnet {x} at relative gradient change {f:.4f}', rtol=1e-6, atol=1e-12)
    ctx.event('kicks of bends checked', len(rec.log))
    for p in range(2):
        if not good[p, 0]:
            continue
        got = zero_crossing(ctx, sc, bpms[p, 0], m[p, 0], p, np.array([9e-4, 9e-4]), slope=True)
        if got is None:
            continue
        got, slope = got  # the beam moves differently at the monitor and in the magnet
        e = sc.RING[int(m[p, 0])]
        tol = 4e-5 + 6 * err[p, 0] + 1e-2 * abs(off[p, 0]) + (2e-2 if comp else 0.1 + abs(1 - slope)) * abs(angle[int(m[p, 0])] / e.NomPolynomB[1] / e.Length) * (p == 0)
        ctx.check(abs(got) < tol, f'monitor {bpms[p, 0]} plane {p} reads {got:.3g} where the beam passes the centre of bend {m[p, 0]} (returned {off[p, 0]:.3g} +- {err[p, 0]:.2g}, tolerance {tol:.2g})')
        ctx.event('centres of bends verified')
    ctx.sig(comp, m.tolist(), ctx.idx)


class Kicks:
    """Injection hook recording corrector and gradient setpoints of some magnets at each shot."""

    def __init__(self, sc, ords):
        self.sc, self.ords, self.log = sc, ords, []

    def __deepcopy__(self, memo):
        return lambda z: z

    def now(self):
        return np.array([self.sc.get_cm_setpoints(self.ords, False), [self.sc.RING[int(i)].SetPointB[1] for i in self.ords]])

    def __call__(self, z):
        self.log.append(self.now())
        return z


def orbit(ctx):
    rng = ctx.rng
    noise = bool(rng.random() < 0.3)
    sc, o, noise, sext, cal = machine(ctx, noise=noise, sext=False, scale=float(rng.choice([0.2, 0.4])))
    mode = 'ORB' if rng.random() < 0.85 else 'PORB'
    sc.INJ.trackMode = mode
    if mode == 'PORB':
        sc.INJ.nTurns = int(rng.integers(5, 12))
    n = 1
    bpms, mags = pairs(ctx, sc, o, n)
    model = SCgetModelRM(sc, sc.ORD.BPM, sc.ORD.CM, trackMode='ORB')
    cms, mon = [x.copy() for x in sc.ORD.CM], sc.ORD.BPM.copy()
    target = float(rng.choice([5e-4, 1e-3, -5e-4]))
    given = DotDict(dict(RM=model.copy(), CMords=[x.copy() for x in cms], BPMords=mon.copy(), scaleDisp=0))
    kw = dict(RMstruct=given, n_steps=int(rng.choice([5, 8, 10])), BBABPMtarget=target)
    relative = bool(rng.random() < 0.5)
    if relative:
        kw['use_bpm_reading_for_orbit_bump_ref'] = True
    if rng.random() < 0.4:
        kw['magnet_strengths'] = np.array([0.98, 1.0, 1.02])
    if rng.random() < 0.3:
        for p, c in enumerate(sc.ORD.CM):
            sc.set_cm_setpoints(c, rng.normal(0, 3e-6, len(c)), bool(p))
    start = bpm_reading(sc)[0]
    if np.any(np.isnan(start)):
        raise Skip('no closed orbit')
    before, first = snap.machine(sc), offsets(sc, bpms)
    old = sc.very_deep_copy()
    ctx.note(mode=mode, n=n, relative=relative, noise=noise)
    try:
        out = orbit_bba(sc, bpms, mags, **kw)
    except RuntimeError as e:
        ctx.check('FAIL' in str(e), f'{e}')
        d = [x for x in snap.diff(before, snap.machine(sc), rtol=1e-10, atol=1e-12)]
        ctx.check(not d, f'failed bump changed the machine: {snap.describe(d)}')
        ctx.event('bumps failed')
        ctx.sig(mode, 'failed', ctx.idx)
        return
    off, err, good = judge(ctx, sc, before, first, bpms, out, 'orbit alignment')
    ctx.check(np.array_equal(given.RM, model) and all(np.array_equal(x, y) for x, y in zip(given.CMords, cms)) and np.array_equal(given.BPMords, mon), 'response data were changed')
    if mode == 'ORB':
        for p in range(2):
            for j in range(n):
                if not good[p, j]:
                    continue
                ref = bpm_reading(quiet(old), bpm_ords=mon)[0] if relative else np.zeros((2, len(mon)))
                ref[p, int(np.where(mon == bpms[p, j])[0][0])] += target
                got = orbit_crossing(old, bpms[p, j], mags[p, j], p, cms, mon, model, ref)
                if got is None:
                    continue
                r = sc.RING[bpms[p, j]]
                tol = 3e-5 + 6 * err[p, j] + (abs(r.CalError[p]) + abs(float(np.ravel(r.Roll)[0])) + 1e-3) * abs(off[p, j]) * 2 + (3e-5 if noise else 0)
                ctx.check(abs(got - off[p, j]) < tol, f'monitor {bpms[p, j]} plane {p} reads {got:.6g} when the orbit passes the centre of magnet {mags[p, j]}, found {off[p, j]:.6g} +- {err[p, j]:.2g} (tolerance {tol:.2g})')
                ctx.event('orbit centres verified')
    ctx.sig(mode, noise, cal, bpms.tolist(), kw['n_steps'], ctx.idx)


SCENARIOS = dict(centres=Scenario(centres, 72, 1000), skew=Scenario(skew, 24, 300), sextupole=Scenario(sextupole, 32, 500), hostile=Scenario(hostile, 48, 700), simplified=Scenario(simplified, 90, 1500),
                 orbit=Scenario(orbit, 16, 250), bends=Scenario(bends, 40, 500), spread=Scenario(spread, 6, 60), reject=Scenario(reject, 30, 100))
