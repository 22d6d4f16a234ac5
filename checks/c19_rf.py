"""C19: independent turn-by-turn measurements on copies of the machine decide where the cavities have to go; exact state comparison of everything else."""
import numpy as np
import at
from vlib import gen, snap
from vlib.common import Scenario, Skip, LogCapture
from pySC.core.beam import bpm_reading
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.core.lattice_setting import switch_cavity_and_radiation
from pySC.correction.rf import correct_rf_phase, correct_rf_frequency, phase_and_energy_error

PID = 'C19'
RULE = ('random machines with one or several cavities, RF errors, injection phase and energy errors, step counts, turn numbers, ranges, monitor subsets, noise, '
        'partial beam losses, weak or switched off cavities; every shot is recorded by the injection hook and replayed on a copy, with separately written fits. Distinct by settings and machine.')
ASSUMPTIONS = ['a correction is judged as significant by the documented two-sigma rule, decisions within a few per cent of it are not judged',
               'setpoints are restored up to rounding']
C = 299792458.0


def machine(ctx, noise=None, n_cav=None, sext=True, ap=None):
    rng = ctx.rng
    ring = gen.make_ring(rng, sext=(3.0, -4.0) if sext else (0.0, 0.0), apertures=ap)
    n_cav = int(rng.choice([1, 1, 2, 3])) if n_cav is None else n_cav
    elems = list(ring)
    volt = float(rng.uniform(1e6, 3e6)) / n_cav
    elems[0].Voltage = volt
    marks = [i for i, e in enumerate(elems) if e.FamName == 'SectionEnd']
    for k in range(1, n_cav):
        e = elems[0].deepcopy()
        elems.insert(marks[(k * len(marks)) // n_cav] + k, e)
    ring = at.Lattice(elems, name='rf', energy=2.5e9, periodicity=1)
    for e in ring:
        if isinstance(e, at.RFCavity):
            e.PassMethod = 'RFCavityPass'
    sc = SimulatedCommissioning(ring)
    noise = bool(rng.random() < 0.4) if noise is None else noise
    o = gen.register_all(sc, rng, noise=noise, scale=float(rng.choice([0.01, 0.03, 0.1, 1.0])), rf=bool(rng.random() < 0.7))
    sc.apply_errors()
    if not noise:
        sc.INJ.randomInjectionZ = np.zeros(6)
    lam = C / sc.RING[sc.ORD.RF[0]].FrequencySetPoint
    z = sc.INJ.Z0.copy()
    z[5] += float(rng.uniform(-0.5, 0.5)) * lam * (rng.random() < 0.7)
    z[4] += float(rng.normal(0, 5e-4)) * (rng.random() < 0.4)
    sc.INJ.Z0 = z
    sc.INJ.trackMode, sc.INJ.nParticles, sc.INJ.nShots = 'TBT', 1, 1
    return sc, o, noise, n_cav, lam


class Shots:
    """postFun hook: records cavity setpoints and beam of every shot and makes the noise that follows repeatable."""

    def __init__(self, sc, field, base):
        self.sc, self.field, self.base, self.log, self.play = sc, field, base, [], None

    def __deepcopy__(self, memo):
        return self

    def __call__(self, Z):
        if self.play is not None:  # a replayed shot
            k, self.play = self.play, self.play + 1
            np.random.seed((self.base + k) % 2 ** 32)
            return self.log[k][1].copy()
        k = len(self.log)
        self.log.append((setpoints(self.sc, self.field), Z.copy()))
        np.random.seed((self.base + k) % 2 ** 32)
        return Z

    def scan(self, ctx, ref, first, cavs, vec, bpms, what):
        """Shifts per turn at the scanned settings, recomputed from the recorded shots on a copy of the machine."""
        n = ref.INJ.nShots
        steps = np.array([sp - first for sp, _ in self.log[::n]])
        for j in range(n):
            ctx.close(np.array([sp - first for sp, _ in self.log[j::n]]), steps, f'{what}: settings of the shots of one reading', rtol=0, atol=1e-9 * max(1, np.max(np.abs(first))))
        sel = np.isin(ref.ORD.RF, cavs)
        tol = 1e-9 * np.max(np.abs(vec)) + 1e-13 * np.max(np.abs(first))
        ctx.check(np.all(np.abs(steps[:, ~sel]) < tol), f'{what} moved other cavities while scanning')
        out = []
        c = ref.very_deep_copy()
        for v in vec:
            k = [q for q, st in enumerate(steps) if np.all(np.abs(st[sel] - v) < 10 * tol)]
            ctx.check(len(k) > 0, f'{what}: no reading with the cavities moved by {v}, but by {steps[:, sel].tolist()}')
            for i, sp in zip(c.ORD.RF, self.log[k[0] * n][0]):
                setattr(c.RING[i], self.field + 'SetPoint', sp)
            c.update_cavities()
            self.play = k[0] * n
            out.append(slope(c, bpms, c.INJ.nTurns))
        self.play = None
        return np.array(out)


def quiet(sc):
    c = sc.very_deep_copy()
    c.INJ.randomInjectionZ = np.zeros(6)
    c.INJ.postFun = lambda z: z
    for i in c.ORD.BPM:
        c.RING[i].Noise, c.RING[i].SumError = np.zeros(2), 0.0
    return c


def closed_orbit(sc):
    try:
        orb = at.find_orbit6(sc.RING.deepcopy())[0]
    except at.lattice.AtError as e:
        raise Skip(f'closed orbit: {e}')
    if not np.all(np.isfinite(orb)):
        raise Skip('no closed orbit')
    return orb


def slope(sc, bpms, n_turns):
    """Mean horizontal shift per turn with its error; NaN when the beam survives fewer than three turns."""
    x = bpm_reading(sc, bpms)[0][0].reshape(n_turns, -1)
    d = np.mean(x - x[0], axis=1)
    e = np.std(x, axis=1) / np.sqrt(x.shape[1]) + 1e-9
    ok = ~np.isnan(d)
    if np.sum(ok) < 3:
        return np.nan, np.nan
    t = np.arange(n_turns)[ok]
    A = np.column_stack((t, np.ones(len(t)))) / e[ok][:, None]
    cov = np.linalg.inv(A.T @ A)
    p = cov @ (A.T @ (d[ok] / e[ok]))
    return p[0], np.sqrt(cov[0, 0])


def shifted(sc, cavs, field, values, bpms, n_turns):
    out = []
    for v in values:
        c = sc.very_deep_copy()
        for i in cavs:
            setattr(c.RING[i], field + 'SetPoint', getattr(c.RING[i], field + 'SetPoint') + v)
        c.update_cavities(np.array(cavs))
        out.append(slope(c, bpms, n_turns))
    return np.array(out)


def setpoints(sc, field):
    return np.array([float(np.ravel(getattr(sc.RING[i], field + 'SetPoint'))[0]) for i in sc.ORD.RF])


def only(ctx, before, sc, cavs, field, what, changed=True):
    """Only the field's setpoint of the given cavities, and the actual value that follows from it, may differ."""
    d = snap.diff(before, snap.machine(sc), rtol=1e-12, atol=1e-12)
    for path, a, b in d:
        ok = changed and path[0] == 'RING' and any(str(p) in (field, field + 'SetPoint') for p in path) and next((int(p) for p in path if isinstance(p, (int, np.integer))), -1) in set(int(c) for c in cavs)
        ctx.check(ok, f'{what} changed {path}: {a} -> {b}')


def common_step(ctx, first, sc, cavs, field, what):
    step = setpoints(sc, field) - first
    sel = np.isin(sc.ORD.RF, cavs)
    ctx.check(np.all(step[~sel] == 0), f'{what} moved other cavities: {step}')
    v = step[sel]
    ctx.close(v, np.full(v.shape, v[0]), f'{what}: steps of the cavities', rtol=1e-9, atol=1e-9 * max(1e-12, np.max(np.abs(first))))
    return float(v[0])


def fold(x, lam):
    return x - lam * np.round(x / lam)


def choose(ctx, sc):
    rng = ctx.rng
    cavs = np.array(sc.ORD.RF) if rng.random() < 0.5 else np.sort(rng.choice(sc.ORD.RF, int(rng.integers(1, len(sc.ORD.RF) + 1)), replace=False))
    bpms = np.array(sc.ORD.BPM) if rng.random() < 0.6 else np.sort(rng.choice(sc.ORD.BPM, int(rng.integers(5, len(sc.ORD.BPM))), replace=False))
    kw = {}
    if not (len(cavs) == len(sc.ORD.RF) and rng.random() < 0.5):
        kw['cav_ords'] = cavs.copy()
    if not (len(bpms) == len(sc.ORD.BPM) and rng.random() < 0.5):
        kw['bpm_ords'] = bpms.copy()
    return cavs, bpms, kw


def run(func, sc, **kw):
    with LogCapture() as log:
        try:
            return func(sc, **kw), None, log.messages('WARNING')
        except RuntimeError as e:
            return None, e, log.messages('WARNING')


# ---------------------------------------------------------------- phase
def phase(ctx):
    rng = ctx.rng
    losses = rng.random() < 0.35
    sc, o, noise, n_cav, lam = machine(ctx, ap=[float(rng.uniform(0.001, 0.008))] * 2 if losses else None)
    cavs, bpms, kw = choose(ctx, sc)
    if n_cav > 1 and rng.random() < 0.3:  # a harmonic cavity, scanned alone or left alone
        h = sc.ORD.RF[int(rng.integers(n_cav))]
        for r in (sc.RING, sc.IDEALRING):
            r[h].Frequency, r[h].HarmNumber = 3 * r[h].Frequency, 3 * r[h].HarmNumber
        sc.RING[h].FrequencySetPoint = 3 * sc.RING[h].FrequencySetPoint
        sc.set_cavity_setpoints(np.array([h]), float(rng.uniform(0.5, 4)), 'Voltage', 'rel')
        sc.update_cavities()
        cavs = np.array([h]) if rng.random() < 0.7 else np.array([i for i in sc.ORD.RF if i != h])
        kw['cav_ords'] = cavs.copy()
    sc.INJ.nTurns = int(rng.choice([4, 5, 8]))
    sc.INJ.nShots = int(rng.choice([1, 1, 1, 2, 3]))
    n_steps = int(rng.choice([8, 15, 21]))
    weak = rng.random() < 0.3
    if weak:
        sc.set_cavity_setpoints(sc.ORD.RF, 10 ** float(rng.uniform(2, 5.3)), 'Voltage', 'abs')
    if rng.random() < 0.3:
        sc.set_cavity_setpoints(sc.ORD.RF, float(rng.uniform(-1, 1)) * lam, 'TimeLag', 'add')
    if n_cav > 1 and rng.random() < 0.5:  # cavities which are not in phase
        for i in sc.ORD.RF:
            sc.set_cavity_setpoints(np.array([i]), float(rng.uniform(-0.1, 0.1)) * lam, 'TimeLag', 'add')
    if rng.random() < 0.2:
        kw.update(plot_results=bool(rng.random() < 0.5), plot_progress=bool(rng.random() < 0.5))
    ctx.note(noise=noise, n_cav=n_cav, cavs=len(cavs), turns=sc.INJ.nTurns, shots=sc.INJ.nShots, steps=n_steps, weak=weak, losses=losses)
    shots = Shots(sc, 'TimeLag', int(rng.integers(2 ** 31)))
    sc.INJ.postFun = shots
    ref = sc.very_deep_copy()
    before, first = snap.machine(sc), setpoints(sc, 'TimeLag')
    lam = C / sc.RING[cavs[0]].FrequencySetPoint
    out, err, warn = run(correct_rf_phase, sc, n_steps=n_steps, **kw)
    only(ctx, before, sc, cavs, 'TimeLag', 'phase correction', changed=err is None)
    step = common_step(ctx, first, sc, cavs, 'TimeLag', 'phase correction')
    ctx.check(err is not None or out is sc, 'correct_rf_phase returns another machine')
    ctx.check(abs(step) <= lam / 2 * (1 + 1e-9), f'phase step {step} of more than half a period {lam}')
    # the recorded scan, fitted with a linear model
    vec = lam * np.linspace(-0.5, 0.5, n_steps)
    m = shots.scan(ctx, ref, first, cavs, vec, bpms, 'phase scan')
    ok = ~np.isnan(m[:, 0])
    ctx.event('scans with lost settings', not np.all(ok))
    if np.sum(ok) < 6:
        ctx.check(err is not None, f'phase corrected by {step} with only {int(np.sum(ok))} measurable settings')
        ctx.event('too many lost settings')
        ctx.sig('lost', n_cav, n_steps, sc.INJ.nTurns, f'{m}')
        return
    w = 2 * np.pi * vec[ok] / lam
    A = np.column_stack((np.sin(w), np.cos(w), np.ones(len(w)))) / m[ok, 1:2]
    cov = np.linalg.pinv(A.T @ A)
    s, c_, off = cov @ (A.T @ (m[ok, 0] / m[ok, 1]))
    amp = np.hypot(s, c_)
    g = np.array([s, c_, 0]) / amp
    sig_a = np.sqrt(g @ cov @ g)
    covered = np.all(ok) or np.linalg.cond(A) < 100
    resid = np.std(m[ok, 0] - (s * np.sin(w) + c_ * np.cos(w) + off))
    ratio = amp / (2 * sig_a)
    unsynchronised = abs(off) / amp
    ctx.note(ratio=float(ratio), offset=float(unsynchronised), step=step / lam, fit=float(resid / amp))
    ctx.event('scans')
    phi0 = np.arctan2(c_, s)
    if not covered:
        ctx.sig('poor', n_cav, n_steps, f'{off:.4g}')
        return
    if unsynchronised > 1.01:
        ctx.check(err is not None, f'no phase gives zero shift ({off:.3g} with amplitude {amp:.3g}), but no error was raised')
        ctx.event('not synchronisable')
    elif unsynchronised < 0.99:
        ctx.check(err is None, f'phase correction failed ({err}) although the shift crosses zero ({off:.3g} with amplitude {amp:.3g})')
        if ratio < 0.95:
            ctx.check(abs(step) <= 1e-9 * lam, f'insignificant measurement ({ratio:.2f}) moved the phase by {step / lam:.3g} periods')
            ctx.check(any('precise' in t for t in warn) or warn, 'insignificant measurement without warning')
            ctx.event('insignificant')
        elif ratio > 1.05:
            want = (-phi0 - np.arcsin(off / amp)) / (2 * np.pi) * lam  # crossing towards larger shift
            d = fold(step - want, lam)
            ctx.check(abs(d) < 2e-3 * lam, f'phase moved by {step / lam:.4f} periods, the shift per turn vanishes on its rising edge at {fold(want, lam) / lam:.4f}')
            if not noise and ratio > 1.2 and unsynchronised < 0.8 and np.all(ok):
                now = slope(quiet(sc), bpms, sc.INJ.nTurns)[0]
                if np.isfinite(now):
                    ctx.check(abs(now) < 0.02 * amp + 3 * resid, f'shift per turn after the correction {now:.3g} (amplitude {amp:.3g}, fit residual {resid:.3g})')
                    up = shifted(quiet(sc), cavs, 'TimeLag', [-0.05 * lam, 0.05 * lam], bpms, sc.INJ.nTurns)[:, 0]
                    if np.all(np.isfinite(up)) and resid < 0.05 * amp:
                        ctx.check(up[1] > up[0], f'cavities sit on the falling edge: shift {up[0]:.3g} before, {up[1]:.3g} behind')
            ctx.event('significant')
            ctx.event('significant with noise', noise)
    ctx.sig(noise, n_cav, len(cavs), sc.INJ.nTurns, n_steps, len(bpms), f'{off:.4g}')


# ---------------------------------------------------------------- frequency
def frequency(ctx):
    rng = ctx.rng
    losses = rng.random() < 0.35
    sc, o, noise, n_cav, lam = machine(ctx, ap=[float(rng.uniform(0.001, 0.008))] * 2 if losses else None)
    cavs, bpms, kw = choose(ctx, sc)
    sc.INJ.nTurns = int(rng.choice([8, 12]))
    sc.INJ.nShots = int(rng.choice([1, 1, 1, 2, 3]))
    # bring the beam to the stable phase so that a frequency error becomes visible
    if rng.random() < 0.7:
        try:
            orb = closed_orbit(sc)
            z = sc.INJ.Z0.copy()
            z[:] = orb + rng.normal(0, 1, 6) * np.array([1e-5, 1e-6, 1e-5, 1e-6, 1e-5, 1e-3])
            z[4] += rng.choice([0, 1e-4, -3e-4])
            if np.all(np.isfinite(z)):
                sc.INJ.Z0 = z
        except Skip:
            pass
    n_steps = int(rng.choice([6, 10, 15]))
    span = float(rng.choice([5e2, 1e3, 4e3]))
    rnge = rng.choice([-1, 1]) * span * np.array([-1, 1]) if rng.random() < 0.7 else np.array([-span, 0.5 * span])
    if rng.random() < 0.8:
        kw['f_range'] = rnge.copy() if rng.random() < 0.5 else tuple(rnge)
    else:
        rnge = np.array([-1e3, 1e3])
        span = 1e3
    if rng.random() < 0.5:
        sc.set_cavity_setpoints(sc.ORD.RF, float(rng.choice([-1, 1]) * rng.uniform(100, 800)), 'Frequency', 'add')
    if n_cav > 1 and rng.random() < 0.4:
        for i in sc.ORD.RF:
            sc.set_cavity_setpoints(np.array([i]), float(rng.uniform(-50, 50)), 'Frequency', 'add')
    if rng.random() < 0.2:
        kw.update(plot_results=bool(rng.random() < 0.5), plot_progress=bool(rng.random() < 0.5))
    ctx.note(noise=noise, n_cav=n_cav, cavs=len(cavs), turns=sc.INJ.nTurns, shots=sc.INJ.nShots, steps=n_steps, f_range=list(rnge), losses=losses)
    shots = Shots(sc, 'Frequency', int(rng.integers(2 ** 31)))
    sc.INJ.postFun = shots
    ref = sc.very_deep_copy()
    before, first = snap.machine(sc), setpoints(sc, 'Frequency')
    out, err, warn = run(correct_rf_frequency, sc, n_steps=n_steps, **kw)
    only(ctx, before, sc, cavs, 'Frequency', 'frequency correction', changed=err is None)
    step = common_step(ctx, first, sc, cavs, 'Frequency', 'frequency correction')
    ctx.check(err is not None or out is sc, 'correct_rf_frequency returns another machine')
    vec = np.linspace(rnge[0], rnge[1], n_steps)
    m = shots.scan(ctx, ref, first, cavs, vec, bpms, 'frequency scan')
    ok = ~np.isnan(m[:, 0])
    ctx.event('scans with lost settings', not np.all(ok))
    if np.sum(ok) < 3:
        ctx.check(err is not None, f'frequency corrected by {step} with only {int(np.sum(ok))} measurable settings')
        ctx.event('too many lost settings')
        ctx.sig('lost', n_cav, n_steps, sc.INJ.nTurns, f'{m}')
        return
    B = np.column_stack((vec[ok] / span, np.ones(int(np.sum(ok))))) / m[ok, 1:2]
    cov = np.linalg.inv(B.T @ B)
    p = cov @ (B.T @ (m[ok, 0] / m[ok, 1]))
    ratio = min(abs(p[0]) / np.sqrt(cov[0, 0]), abs(p[1]) / np.sqrt(cov[1, 1])) / 2
    ctx.note(ratio=float(ratio), step=step)
    ctx.event('scans')
    ctx.check(err is None, f'frequency correction failed: {err}')
    if ratio < 0.99:
        ctx.check(abs(step) < 1e-4, f'insignificant measurement ({ratio:.2f}) moved the frequency by {step} Hz')
        ctx.check(len(warn) > 0, 'insignificant measurement without warning')
        ctx.event('insignificant')
    elif ratio > 1.01:
        want = -p[1] / p[0] * span
        ctx.check(abs(step - want) < 1e-5 * abs(want) + 1e-5 * span, f'frequency moved by {step:.3f} Hz, the fitted shift vanishes at {want:.3f} Hz')
        if not noise and ratio > 1.2 and abs(want) < 0.8 * span and np.all(ok):
            now = slope(quiet(sc), bpms, sc.INJ.nTurns)[0]
            was = slope(quiet(ref), bpms, sc.INJ.nTurns)[0]
            curv = np.std(m[ok, 0] - (p[0] * vec[ok] / span + p[1]))
            if np.isfinite(now) and np.isfinite(was):
                ctx.check(abs(now) < 0.3 * abs(was) + 3 * curv + 1e-9, f'shift per turn {was:.3g} before and {now:.3g} after the frequency correction')
        ctx.event('significant')
        ctx.event('significant with noise', noise)
    ctx.sig(noise, n_cav, len(cavs), sc.INJ.nTurns, n_steps, list(rnge), len(bpms), f'{p[1]:.4g}')


# ---------------------------------------------------------------- both: the beam is captured
def capture(ctx):
    rng = ctx.rng
    sc, o, noise, n_cav, lam = machine(ctx, noise=False, n_cav=int(rng.choice([1, 2])))
    z = sc.INJ.Z0.copy()
    z[4] = rng.normal(0, 1e-5)
    sc.INJ.Z0 = z
    sc.INJ.nTurns = 5
    out, err, warn = run(correct_rf_phase, sc, n_steps=15)
    ctx.check(err is None, f'phase correction failed: {err}')
    if warn:
        raise Skip('not significant')
    orb = closed_orbit(sc)
    d = fold(orb[5] - sc.INJ.Z0[5], C / sc.RING[sc.ORD.RF[0]].Frequency) / lam
    ctx.check(abs(d) < 0.12, f'after the phase correction the beam arrives {d:.3f} periods from the synchronous phase')
    ctx.event('beams captured')
    ctx.sig(n_cav, f'{lam:.6g}', f'{d:.6g}')


# ---------------------------------------------------------------- reported static errors
def static(ctx):
    rng = ctx.rng
    sc, o, noise, n_cav, lam = machine(ctx)
    if rng.random() < 0.7:
        sc.set_cavity_setpoints(sc.ORD.RF, float(rng.uniform(-2, 2)) * lam, 'TimeLag', 'add')
    if rng.random() < 0.5:
        sc.set_cavity_setpoints(sc.ORD.RF, float(rng.uniform(-300, 300)), 'Frequency', 'add')
    z = sc.INJ.Z0.copy()
    z[5] += float(rng.uniform(-3, 3)) * lam
    sc.INJ.Z0 = [z, z, z, np.zeros(6), np.where(np.arange(6) == int(rng.integers(6)), z, 0.0)][int(rng.integers(5))]  # also on the design axis
    before = snap.machine(sc)
    cavs = sc.ORD.RF if rng.random() < 0.5 else list(sc.ORD.RF)
    orb = closed_orbit(sc)
    ph, en = phase_and_energy_error(sc, cavs)
    d = snap.diff(before, snap.machine(sc))
    ctx.check(not d, f'reporting the errors changed the machine: {snap.describe(d)}')
    lam = C / sc.RING[sc.ORD.RF[0]].Frequency
    want = (orb[5] - sc.INJ.Z0[5]) / lam * 360
    ctx.check(abs(ph) <= 180 * (1 + 1e-9), f'phase error of {ph} degrees is not folded')
    ctx.check(abs(fold(ph - want, 360)) < 1e-3 + 1e-6 * abs(want), f'static phase error {ph}, closed orbit says {fold(want, 360)}')
    ctx.close(en, sc.INJ.Z0[4] - orb[4], 'static energy error', rtol=1e-6, atol=1e-10)
    ctx.sig(n_cav, f'{ph:.6g}', f'{en:.6g}')


# ---------------------------------------------------------------- rejections
def reject(ctx):
    rng = ctx.rng
    sc, o, noise, n_cav, lam = machine(ctx, n_cav=int(rng.choice([1, 2, 3])))
    sc.INJ.nTurns = 6
    k = int(rng.integers(7))
    f = [correct_rf_phase, correct_rf_frequency][int(rng.integers(2))]
    kw, exc = {}, ValueError
    if k == 0:
        sc.INJ.nTurns = int(rng.choice([1, 2]))
    elif k == 1:
        sc.INJ.trackMode = str(rng.choice(['ORB', 'PORB']))
    elif k == 2:
        kw['n_steps'] = int(rng.choice([1, 3, 5]))
    elif k == 3:
        kw['cav_ords'] = np.array([o['qf'][0]])
    elif k == 4:
        sc.RING = switch_cavity_and_radiation(sc.RING, 'cavityoff')
    elif k == 6:  # one of the cavities does not work
        sc.RING[sc.ORD.RF[int(rng.integers(n_cav))]].PassMethod = 'IdentityPass'
    elif k == 5:  # beam lost within three turns: nothing to correct
        z = sc.INJ.Z0.copy()
        z[0] = 1.0
        sc.INJ.Z0, exc = z, RuntimeError
    ctx.note(case=k)
    before = snap.machine(sc)
    ctx.raises(exc, lambda: f(sc, **kw), f'{f.__name__} in case {k}')
    d = snap.diff(before, snap.machine(sc), rtol=1e-12, atol=1e-12)
    ctx.check(not d, f'rejected correction changed the machine: {snap.describe(d)}')
    ctx.sig(k, f.__name__, n_cav)


SCENARIOS = dict(phase=Scenario(phase, 64, 1000), frequency=Scenario(frequency, 64, 800), capture=Scenario(capture, 16, 300), static=Scenario(static, 40, 500),
                 reject=Scenario(reject, 40, 240))
