"""C33: shot-by-shot event log of all error fields while errors are ramped up, judged against the errors the machine started with."""
import numpy as np
from vlib import gen, snap
from vlib.common import Scenario, Skip
from pySC.core.beam import bpm_reading
from pySC.core.lattice_setting import switch_cavity_and_radiation
from pySC.correction.ramp_errors import SCrampUpErrors
from checks.c17_feedback import setpoints

PID = 'C33'
RULE = ('random machines with errors of all kinds (monitors, magnets, multipoles, bending angles, cavities, supports, injection, circumference), initial corrector '
        'settings, step numbers, regularisation and tracking modes; single or permanent beam losses at chosen shots. Every shot logs all error fields and what follows from them. Distinct by settings.')
ASSUMPTIONS = ['systematic multipoles and sum signal errors stay as they are', 'beam losses are injected in the hook which sees every injected bunch']

FIELDS = ['CalErrorB', 'CalErrorA', 'PolynomAOffset', 'PolynomBOffset', 'MagnetOffset', 'MagnetRoll', 'BendingAngleError']
MONITOR = ['Noise', 'NoiseCO', 'Offset', 'SupportOffset', 'Roll', 'SupportRoll', 'CalError']
CAVITY = [p + k for p in ('Voltage', 'Frequency', 'TimeLag') for k in ('Offset', 'CalError')]
SUPPORT = [t + k for t in ('Section', 'Plinth', 'Girder') for k in ('Offset', 'Roll')]


def errors(sc):
    """Every error of the machine in one vector per kind."""
    r, out = sc.RING, {}

    def put(kind, ords, fields):
        for f in fields:
            v = [np.ravel(np.asarray(getattr(r[i], f), dtype=float)) for i in ords if hasattr(r[i], f)]
            if v:
                out[kind + ' ' + f] = np.concatenate(v)
    put('magnet', range(len(r)), FIELDS)
    put('monitor', sc.ORD.BPM, MONITOR)
    put('cavity', sc.ORD.RF, CAVITY)
    put('support', range(len(r)), SUPPORT)
    put('magnet', sc.ORD.Magnet, ['SupportOffset', 'SupportRoll'])
    out['cavity actual'] = np.array([getattr(r[i], p) - getattr(r[i], p + 'SetPoint') for i in sc.ORD.RF for p in ('Voltage', 'Frequency', 'TimeLag')])
    out['field'] = np.concatenate([np.ravel(r[i].PolynomB) for i in sc.ORD.Magnet if hasattr(r[i], 'NomPolynomB') and r[i].FamName in ('SF', 'SD')]
                                  + [np.zeros(1)]) - np.concatenate([np.pad(r[i].SetPointB, (0, len(r[i].PolynomB) - len(r[i].SetPointB))) for i in sc.ORD.Magnet if r[i].FamName in ('SF', 'SD')] + [np.zeros(1)])
    out['injection'] = sc.INJ.Z0 - sc.INJ.Z0ideal
    out['jitter'] = np.array(sc.INJ.randomInjectionZ, dtype=float)
    out['size'] = np.ravel(np.asarray(sc.INJ.beamSize, dtype=float))
    length = [sum(getattr(e, 'Length', 0.0) for e in q) for q in (r, sc.IDEALRING)]
    out['circumference'] = np.array([length[0] - length[1]])
    return out


class Log:
    """postFun hook: error state and corrector settings of every shot, and the faults."""

    def __init__(self, sc, base):
        self.sc, self.base, self.log, self.faults, self.above, self.full = sc, base, [], set(), None, None

    def __deepcopy__(self, memo):
        return self

    def __call__(self, Z):
        k = len(self.log)
        state = errors(self.sc)
        self.log.append((state, setpoints(self.sc)))
        np.random.seed((self.base + k) % 2 ** 32)
        lost = k in self.faults
        if self.above is not None:
            lost = lost or np.linalg.norm(state['monitor Offset']) > self.above * np.linalg.norm(self.full['monitor Offset'])
        return Z * np.nan if lost else Z


def machine(ctx, mode):
    rng = ctx.rng
    sc, o = gen.make_sc(rng, dict(corr_elements=bool(rng.random() < 0.4), cf_bends=bool(rng.random() < 0.2), sext=(1.5, -2.0), split_bends=bool(rng.random() < 0.5)), master=bool(rng.random() < 0.6), scale=float(rng.choice([0.2, 0.5])),
                        noise=bool(rng.random() < 0.5), circ=bool(rng.random() < 0.5), apply=False)
    if rng.random() < 0.5:
        sc.set_random_multipole_errors(o['qf'], rng.normal(0, 1e-5, (4, 2)))
        if len(o['bendb']):
            sc.set_random_multipole_errors(o['bendb'], rng.normal(0, 1e-5, (2, 2)))
    sc.apply_errors()
    sc.INJ.Z0ideal = rng.normal(0, 1, 6) * np.array([1e-5, 1e-6, 1e-5, 1e-6, 0, 0])
    sc.INJ.trackMode, sc.INJ.nParticles, sc.INJ.nShots = mode, 1, 1
    sc.INJ.nTurns = int(rng.integers(1, 3)) if mode == 'TBT' else 1
    sc.INJ.randomInjectionZ = sc.INJ.randomInjectionZ * 0.1
    if rng.random() < 0.5:
        for p, c in enumerate(sc.ORD.CM):
            sc.set_cm_setpoints(c, rng.normal(0, 5e-6, len(c)), bool(p))
    return sc, o


def levels(ctx, log, full, n):
    """Scale of every shot; all errors have the same one and it is a multiple of 1/n."""
    out = []
    ref = np.linalg.norm(full['monitor Offset'])
    for state, _ in log:
        s = float(np.linalg.norm(state['monitor Offset']) / ref)
        ctx.check(abs(s * n - round(s * n)) < 1e-6 and 1 <= round(s * n) <= n, f'errors scaled by {s} with {n} steps')
        for k in full:
            if k == 'circumference':
                ctx.close(state[k], s * full[k], f'{k} at scale {s:.3f}', rtol=1e-3, atol=1e-11)
                continue
            scale = np.max(np.abs(full[k]), initial=0.0)
            tol = 3e-3 if 'Support' in k else 1e-7
            ctx.close(state[k], s * full[k], f'{k} at scale {s:.3f}', rtol=tol, atol=(1e-3 if 'Support' in k else 1e-8) * scale + (1e-7 if k == 'cavity actual' else 1e-18))
            ctx.event('error groups compared')
        out.append(int(round(s * n)))
    return out


def unchanged(ctx, before, sc, cms, what):
    """Correctors may be changed, everything else is as before up to rounding."""
    for path, a, b in snap.diff(before, snap.machine(sc)):
        idx = next((x for x in path if isinstance(x, (int, np.integer))), None)
        name = next((str(x) for x in path if str(x) in ('SetPointA', 'SetPointB', 'PolynomA', 'PolynomB', 'KickAngle')), None)
        if str(path[0]) == 'RING' and name and int(idx) in cms:
            continue
        try:
            same = bool(np.allclose(a, b, rtol=1e-9, atol=1e-14))
        except TypeError:
            same = False
        ctx.check(same, f'{what} changed {path}: {a} -> {b}')
    ctx.event('final machines compared')


def settings(ctx):
    rng = ctx.rng
    return dict(nStepsRamp=int(rng.integers(1, 9)), alpha=float(rng.choice([1.0, 5.0, 10.0])), maxsteps=int(rng.choice([1, 40, 60])), eps=float(rng.choice([1e-2, 5e-2])), target=0)


def correctors(sc):
    return set(int(i) for c in sc.ORD.CM for i in c)


def ramp(ctx):
    rng = ctx.rng
    sc, o = machine(ctx, 'TBT')
    kw = settings(ctx)
    hook = Log(sc, ctx.idx)
    full = errors(sc)
    hook.full = full
    sc.INJ.postFun = hook
    before = snap.machine(sc)
    start = setpoints(sc)
    first = bpm_reading(sc)[0]
    if np.any(np.isnan(first)):
        raise Skip('beam lost at full errors')
    hook.log.clear()
    kind = str(rng.choice(['none', 'once', 'above'], p=[0.5, 0.3, 0.2]))
    n = kw['nStepsRamp']
    if kind == 'once':
        hook.faults.add(int(rng.integers(1, 2 * n + 1)))
    if kind == 'above':
        hook.above = float(rng.uniform(0.05, 0.95))
    ctx.note(kind=kind, **kw)
    try:
        got = SCrampUpErrors(sc, **kw)
    except Exception as e:
        if 'Ramping up failed' not in str(e):
            raise
        got = None
    if kind == 'above':
        ctx.check(got is None, 'ramping succeeded although no beam is seen at full errors')
    if got is None:
        if kind == 'none' or (kind == 'once' and 2 * n <= 50):
            raise Skip('feedback does not converge')
        unchanged(ctx, before, sc, set(), 'failed ramping')
        ctx.event('failures')
    else:
        ctx.check(got is sc, 'ramping returns another machine')
    # the runs: each restart uses twice as many steps from the initial correctors
    log, steps = hook.log, n
    runs, i = [], 0
    ref = np.linalg.norm(full['monitor Offset'])
    s = [float(np.linalg.norm(st['monitor Offset']) / ref) for st, _ in log]
    while i < len(log):
        j = i + 1
        while j < len(log) and s[j] >= s[j - 1] - 1e-9:
            j += 1
        runs.append((i, j, steps))
        i, steps = j, 2 * steps
    for k, (i, j, m) in enumerate(runs):
        lv = levels(ctx, log[i:j], full, m)
        seen = sorted(set(lv))
        ctx.check(seen == list(range(1, seen[-1] + 1)), f'levels {seen} of {m}: skipped')
        if k == len(runs) - 1 and got is not None:
            ctx.check(seen[-1] == m, f'ramping ended at {seen[-1]} of {m}')
        for p in range(2):
            ctx.close(log[i][1][p], start[p], f'run {k} starts from the initial correctors', rtol=0, atol=0)
        # corrections in between: every level has at least two readings (before and after a correction)
        for q in seen[:-1]:
            ctx.check(lv.count(q) >= 2, f'no correction at level {q} of {m}')
    if kind == 'once' and got is not None and len(log):
        ctx.event('restarts', len(runs) - 1)
    if got is not None:
        unchanged(ctx, before, sc, correctors(sc), 'ramping')
        end = errors(sc)
        for k in full:
            ctx.close(end[k], full[k], f'{k} at the end', rtol=1e-9, atol=1e-9 if k == 'circumference' else 1e-15 + 1e-7 * (k == 'cavity actual'))
        if kw['maxsteps'] > 1:
            last = bpm_reading(sc)[0]
            ctx.check(np.sqrt(np.mean(last ** 2)) <= 1.02 * np.sqrt(np.mean(first ** 2)) + 2e-5, f'reading {np.sqrt(np.mean(first ** 2)):.3g} -> {np.sqrt(np.mean(last ** 2)):.3g}')
        ctx.event('levels', len(set(round(x, 6) for x in s)))
    ctx.sig(kind, kw, len(log))


def orbit(ctx):
    """Closed orbit mode: final machine has its full errors and a corrected orbit."""
    sc, o = machine(ctx, 'ORB')
    kw = settings(ctx)
    full = errors(sc)
    before = snap.machine(sc)
    first = bpm_reading(sc)[0]
    if np.any(np.isnan(first)):
        raise Skip('no closed orbit')
    try:
        got = SCrampUpErrors(sc, **kw)
    except Exception as e:
        if 'Ramping up failed' not in str(e):
            raise
        unchanged(ctx, before, sc, set(), 'failed ramping')
        raise Skip('feedback does not converge')
    ctx.check(got is sc, 'ramping returns another machine')
    unchanged(ctx, before, sc, correctors(sc), 'ramping')
    end = errors(sc)
    for k in full:
        ctx.close(end[k], full[k], f'{k} at the end', rtol=1e-9, atol=1e-9 if k == 'circumference' else 1e-15 + 1e-7 * (k == 'cavity actual'))
    last = bpm_reading(sc)[0]
    if kw['maxsteps'] > 1:
        ctx.check(np.sqrt(np.mean(last ** 2)) <= 1.02 * np.sqrt(np.mean(first ** 2)) + 2e-5, f'reading {np.sqrt(np.mean(first ** 2)):.3g} -> {np.sqrt(np.mean(last ** 2)):.3g}')
    ctx.event('orbits')
    ctx.sig(kw, ctx.idx)


SCENARIOS = dict(ramp=Scenario(ramp, 60, 900), orbit=Scenario(orbit, 16, 250))
