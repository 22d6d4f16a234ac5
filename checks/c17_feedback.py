"""C17: shot-by-shot event log of machine settings, replayed on independent copies and judged against the correction law and documented outcomes."""
import numpy as np
from vlib import gen, snap
from vlib.common import Scenario, Skip
from pySC.core.beam import bpm_reading
from pySC.correction import orbit_trajectory as ot
from pySC.lattice_properties.response_model import SCgetModelRM, SCgetModelDispersion

PID = 'C17'
RULE = ('random machines with errors, apertures, noise and injection jitter; physical and random response matrices, references, subsets, '
        'regularisation, transient faults on single shots; every injected beam is logged with the corrector settings it saw, all readings '
        'are replayed on a copy and each change of settings must be the documented correction of that reading. Distinct by settings.')
ASSUMPTIONS = ['noise of a replayed shot is reproduced by seeding numpy\'s generator in the injection hook',
               'decisions within 1e-6 relative of a threshold are not judged']


class Shots:
    """postFun hook: numbers the shots, records settings and beam, injects faults, makes noise repeatable."""

    def __init__(self, sc, base, fault=None):
        self.sc, self.base, self.fault, self.log = sc, base, fault or {}, []

    def __deepcopy__(self, memo):
        return self

    def state(self):
        return setpoints(self.sc)

    def __call__(self, Z):
        k = len(self.log)
        Z = Z + self.fault.get(k, np.zeros(6)).reshape(6, 1)
        self.log.append((self.state(), Z.copy()))
        np.random.seed((self.base + k) % 2 ** 32)
        return Z


def setpoints(sc):
    r = sc.RING
    return [np.array([sc.RING[i].SetPointB[0] for i in sc.ORD.CM[0]]), np.array([sc.RING[i].SetPointA[0] for i in sc.ORD.CM[1]])]


def norm(sc, plane):
    """Corrector angle per dipole coefficient."""
    return np.array([1.0 if sc.RING[i].PassMethod == 'CorrectorPass' else (-sc.RING[i].Length if plane == 0 else sc.RING[i].Length)
                     for i in sc.ORD.CM[plane]])


class Replay:
    """Readings of the logged shots, taken on an independent copy of the machine."""

    def __init__(self, sc, shots, bpms):
        self.sc, self.shots, self.bpms = sc.very_deep_copy(), shots, bpms
        self.n = [norm(sc, 0), norm(sc, 1)]

    def angles(self, k):
        return [s * n for s, n in zip(self.shots.log[k][0], self.n)]

    def reading(self, k):
        sp, Z = self.shots.log[k]
        for p in range(2):
            for i, v in zip(self.sc.ORD.CM[p], sp[p]):
                (self.sc.RING[i].SetPointB if p == 0 else self.sc.RING[i].SetPointA)[0] = v
            self.sc.update_magnets(self.sc.ORD.CM[p])

        def post(_):
            np.random.seed((self.shots.base + k) % 2 ** 32)
            return Z.copy()
        self.sc.INJ.postFun = post
        return bpm_reading(self.sc, bpm_ords=self.bpms)[0]


def my_pinv(m, alpha=0.0, num_removed=0, damping=1.0):
    u, s, vt = np.linalg.svd(m, full_matrices=False)
    keep = min(max(len(s) - num_removed, 0), int(np.sum(s > 1e-13 * s[0])))
    inv = np.zeros(len(s))
    inv[:keep] = s[:keep] / (s[:keep] ** 2 + alpha ** 2)
    return damping * (vt.T * inv) @ u.T


def limits(sc, plane, ords):
    return np.array([sc.RING[i].CMlimit[plane] for i in ords])


def rest(sc, rf=False):
    """Machine without corrector setpoints and what follows from them (coefficients order 0)."""
    m = snap.machine(sc)
    return m


def only_setpoints(ctx, before, sc, cms, what, rf=False):
    """Only the setpoints of the given correctors (and the fields which follow) may differ."""
    ok = [set(int(i) for i in cms[0]), set(int(i) for i in cms[1])]
    cav = set(int(i) for i in sc.ORD.RF) if rf else set()
    n = 0
    for path, a, b in snap.diff(before, snap.machine(sc)):
        s = [str(x) for x in path]
        idx = next((x for x in path if isinstance(x, (int, np.integer))), None)
        name = next((x for x in s if x in ('SetPointA', 'SetPointB', 'PolynomA', 'PolynomB', 'KickAngle', 'FrequencySetPoint', 'Frequency')), None)
        comp = path[-1]
        good = False
        if s[0] == 'RING' and idx is not None:
            if name in ('SetPointB', 'PolynomB'):
                good = int(idx) in ok[0] and comp_is(comp, 0)
            if name in ('SetPointA', 'PolynomA'):
                good = int(idx) in ok[1] and comp_is(comp, 0)
            if name == 'KickAngle':
                good = (int(idx) in ok[0] and comp_is(comp, 0)) or (int(idx) in ok[1] and comp_is(comp, 1))
            if name in ('FrequencySetPoint', 'Frequency'):
                good = int(idx) in cav
        n += 1
        ctx.check(good, f'{what} changed {path}: {a} -> {b}')
    ctx.event('setting changes allowed', n)


def comp_is(c, k):
    return int(c[-1] if isinstance(c, tuple) else c) == k


def start(ctx, ap=None, turns=None, mode='TBT', scale=None, noise=None, kick=0.0, cm_limit=2e-3, sext=True, n_cav=1):
    rng = ctx.rng
    noise = bool(rng.random() < 0.5) if noise is None else noise
    scale = float(rng.choice([0.3, 1.0])) if scale is None else scale
    sc, o = gen.make_sc(rng, dict(corr_elements=bool(rng.random() < 0.4), apertures=ap, sext=(3.0, -4.0) if sext else (0.0, 0.0), n_cav=n_cav),
                        noise=noise, scale=scale, cm_limit=cm_limit)
    if not noise:
        sc.INJ.randomInjectionZ = np.zeros(6)
        for i in sc.ORD.BPM:
            sc.RING[i].Noise, sc.RING[i].NoiseCO, sc.RING[i].SumError = np.zeros(2), np.zeros(2), 0.0
    sc.INJ.trackMode, sc.INJ.nParticles, sc.INJ.nShots = mode, 1, 1
    sc.INJ.nTurns = turns or int(rng.integers(1, 3))
    if kick:
        for p, c in enumerate(sc.ORD.CM):
            sc.set_cm_setpoints(c, rng.normal(0, kick, len(c)), bool(p))
    return sc, o, noise


def subset(rng, a, frac=0.6):
    if rng.random() < 0.5:
        return np.array(a)
    n = max(2, int(len(a) * rng.uniform(frac, 1.0)))
    return np.sort(rng.choice(a, n, replace=False))


def pinv_options(rng):
    kw = {}
    if rng.random() < 0.5:
        kw['alpha'] = float(rng.choice([0.5, 5.0, 50.0]))
    if rng.random() < 0.4:
        kw['num_removed'] = int(rng.integers(0, 6))
    if rng.random() < 0.4:
        kw['damping'] = float(rng.choice([0.3, 0.7, 1.0]))
    return kw


def step_expected(sc, angles, dphi, cms, active=None):
    """Settings after one correction: additive, clipped to the limits, correctors in cms only."""
    want = [a.copy() for a in angles]
    pos = 0
    for p in range(2):
        for j, i in enumerate(cms[p]):
            if active is None or active[p][j]:
                k = int(np.where(sc.ORD.CM[p] == i)[0][0])
                lim = sc.RING[i].CMlimit[p] if p == 0 or len(sc.RING[i].CMlimit) > 1 else np.inf
                v = want[p][k] - dphi[pos + j]
                want[p][k] = np.clip(v, -lim, lim)
        pos += len(cms[p])
    return want


def compare_settings(ctx, got, want, what):
    for p in range(2):
        ctx.close(got[p], want[p], f'{what}, {"vertical" if p else "horizontal"} correctors', rtol=1e-7, atol=1e-13)


# ---------------------------------------------------------------- one step with arbitrary matrices
def one_step(ctx):
    rng = ctx.rng
    mode = str(rng.choice(['TBT', 'TBT', 'ORB', 'PORB']))
    sc, o, noise = start(ctx, mode=mode, noise=False, turns=1 if mode == 'ORB' and rng.random() < 0.7 else None,
                         n_cav=1 + (mode != 'ORB' and ctx.idx % 3 == 2))
    bpms = subset(rng, sc.ORD.BPM)
    cms = [subset(rng, sc.ORD.CM[0]), subset(rng, sc.ORD.CM[1])]
    default_b, default_c = bool(rng.random() < 0.3), bool(rng.random() < 0.3)
    if default_b:
        bpms = np.array(sc.ORD.BPM)
    if default_c:
        cms = [np.array(c) for c in sc.ORD.CM]
    n_rows, n_cols = 2 * len(bpms) * (1 if mode == 'PORB' else sc.INJ.nTurns), len(cms[0]) + len(cms[1])
    disp = float(rng.choice([0, 0, 1e2, 1e5]))
    mat = rng.normal(0, 10, (n_rows, n_cols + (disp != 0)))
    ref = None
    shape_2d = bool(rng.random() < 0.5)
    if rng.random() < 0.6:
        ref = rng.normal(0, 2e-4, n_rows)
        if shape_2d:
            ref = ref[:, np.newaxis]
    kw = pinv_options(rng)
    if rng.random() < 0.2:  # saturate some correctors
        for p in range(2):
            for i in cms[p][::3]:
                sc.RING[i].CMlimit[p] = 2e-6
    ctx.note(mode=mode, turns=sc.INJ.nTurns, bpms=len(bpms), cms=[len(c) for c in cms], disp=disp, ref=None if ref is None else str(ref.shape), **kw)
    mat0, ref0 = mat.copy(), None if ref is None else ref.copy()
    before = snap.machine(sc)
    angles = [s * norm(sc, p) for p, s in enumerate(setpoints(sc))]
    freq = np.array([sc.RING[i].FrequencySetPoint for i in sc.ORD.RF], dtype=float).ravel()
    reading = bpm_reading(sc, bpm_ords=bpms)[0].ravel()
    if np.any(np.isnan(reading)):
        raise Skip('beam lost')
    try:
        out = ot.correct(sc, mat, reference=ref, cm_ords=None if default_c else cms, bpm_ords=None if default_b else bpms, maxsteps=1,
                         scaleDisp=disp, **kw)
    except RuntimeError:
        if np.any(np.isnan(bpm_reading(sc, bpm_ords=bpms)[0])):
            return
        raise
    ctx.check(out is sc, 'correct returns another machine')
    only_setpoints(ctx, before, sc, cms, 'correct', rf=disp != 0)
    dphi = my_pinv(mat0, **kw) @ (reading - (0 if ref0 is None else ref0.ravel()))
    want = step_expected(sc, angles, dphi[:n_cols], cms)
    compare_settings(ctx, [s * norm(sc, p) for p, s in enumerate(setpoints(sc))], want, 'one correction step')
    got = np.array([sc.RING[i].FrequencySetPoint for i in sc.ORD.RF], dtype=float).ravel()
    ctx.close(got, freq - disp * dphi[-1] if disp else freq, 'RF frequency setpoint after one step', rtol=1e-12, atol=1e-9 * max(disp * np.max(np.abs(dphi)), 1e-12))
    ctx.check(np.array_equal(mat, mat0) and (ref is None or np.array_equal(ref, ref0)), 'matrix or reference of the caller changed')
    ctx.check(sum(np.any(w != a) for w, a in zip(want, angles)) == 2, 'generator: step did nothing')
    ctx.sig(mode, sc.INJ.nTurns, len(bpms), disp, ref is None, kw, len(cms[0]))


# ---------------------------------------------------------------- iterations of correct and balance
def stable(hist, n, eps):
    """None when too close to call."""
    if len(hist) < n:
        return False
    s = np.std(hist[-n:])
    return None if abs(s - eps) < 1e-6 * eps else bool(s < eps)


def rms(reading):
    ok = ~np.isnan(reading[0])
    return np.sqrt(np.mean(reading[:, ok] ** 2, axis=1))


def iterations(ctx):
    rng = ctx.rng
    func = str(rng.choice(['correct', 'correct', 'balance']))
    turns = 2 if func == 'balance' else int(rng.integers(1, 3))
    sc, o, noise = start(ctx, turns=turns, kick=float(rng.choice([0, 1e-5, 5e-5])), sext=func != 'balance' or rng.random() < 0.5)
    bpms = subset(rng, sc.ORD.BPM)
    cms = [subset(rng, sc.ORD.CM[0]), subset(rng, sc.ORD.CM[1])]
    rm = SCgetModelRM(sc, bpms, cms, trackMode='TBT', nTurns=turns, useIdealRing=True)
    ref = rng.normal(0, 5e-5, rm.shape[0]) if rng.random() < 0.5 else None
    kw = dict(alpha=float(rng.choice([1.0, 10.0, 50.0])))
    if rng.random() < 0.3:
        kw['damping'] = 0.6
    maxsteps = int(rng.choice([1, 2, 3, 6, 12, 30]))
    eps = float(rng.choice([1e-3, 1e-4, 2e-5, 1e-5]))
    target = float(rng.choice([0, 1e-3, 2e-4])) if func == 'correct' else 0.0
    base = int(rng.integers(2 ** 31))
    fault = {}
    if rng.random() < 0.5:
        k = int(rng.integers(0, min(8, maxsteps + 1)))
        fault[k] = np.zeros(6)
        q = rng.random()
        if q < 0.3:
            fault[k][int(rng.choice([0, 2]))] = 5.0  # beam lost on one shot
        elif q < 0.75:  # beam lost somewhere on the way, in the first or in the second turn
            i = int(rng.integers(len(sc.RING) // 3, len(sc.RING)))
            while hasattr(sc.RING[i], 'Frequency'):
                i -= 1
            a = float(rng.uniform(2e-3, 5e-3))
            sc.RING[i].EApertures = np.array([a, a])
            c = sc.very_deep_copy()
            for _ in range(25):
                fault[k][:4] = rng.normal(0, 1, 4) * np.array([a, a / 5, a, a / 5]) * 0.6
                c.INJ.Z0 = sc.INJ.Z0 + fault[k]
                seen = np.sum(~np.isnan(bpm_reading(c, bpm_ords=bpms)[0][0]))
                if len(bpms) * (turns - 1) <= seen < len(bpms) * turns and seen:
                    break
        else:
            fault[k][0] = 3e-4  # jump of the beam
        if rng.random() < 0.3:
            for i in range(len(sc.RING)):
                if not hasattr(sc.RING[i], 'Frequency'):
                    sc.RING[i].EApertures = np.array([0.03, 0.03])
    if func == 'correct' and rng.random() < 0.3:  # a target which the planes reach at different steps
        maxsteps, eps, kw['damping'] = int(rng.integers(2, 6)), 1e-3, 0.3
        try_sc = sc.very_deep_copy()
        trial = Shots(try_sc, base, fault)
        look = Replay(sc, trial, bpms)
        try_sc.INJ.postFun = trial
        try:
            ot.correct(try_sc, rm, reference=ref, cm_ords=cms, bpm_ords=bpms, maxsteps=maxsteps, eps=eps, **kw)
        except RuntimeError:
            pass
        r = rms(look.reading(int(rng.integers(1, max(2, len(trial.log))))))
        if np.all(np.isfinite(r)) and np.all(r > 0):
            target = float(np.exp(np.mean(np.log(r))))
            ctx.event('targets between the planes')
    shots = Shots(sc, base, fault)
    replay = Replay(sc, shots, bpms)
    sc.INJ.postFun = shots
    before = snap.machine(sc)
    ctx.note(func=func, turns=turns, maxsteps=maxsteps, eps=eps, target=target, noise=noise, fault=str(list(fault)), **kw)
    err = None
    try:
        if func == 'correct':
            out = ot.correct(sc, rm, reference=ref, cm_ords=cms, bpm_ords=bpms, maxsteps=maxsteps, eps=eps, target=target, **kw)
        else:
            out = ot.balance(sc, rm, reference=ref, cm_ords=cms, bpm_ords=bpms, maxsteps=maxsteps, eps=eps, **kw)
        ctx.check(out is sc, f'{func} returns another machine')
    except (RuntimeError, ValueError) as e:
        err = e
    only_setpoints(ctx, before, sc, cms, func)
    nb = len(bpms)
    plus = my_pinv(rm, **kw)
    reference = np.zeros((2, rm.shape[0] // 2)) if ref is None else ref.reshape(2, -1).copy()
    if func == 'balance':
        reference[:, nb:] = 0
    readings = [replay.reading(k) for k in range(len(shots.log))]
    ctx.event('shots replayed', len(readings))
    n = len(readings) - 1
    # the law of each step
    for k in range(n):
        r = readings[k].copy()
        if func == 'balance':
            r[:, nb:] = r[:, nb:] - r[:, :nb]
        dphi = plus @ (r - reference).ravel()
        if np.all(np.isfinite(dphi)):
            compare_settings(ctx, replay.angles(k + 1), step_expected(sc, replay.angles(k), dphi, cms), f'{func} step {k + 1} of {n}')
    now = [s * m for s, m in zip(setpoints(sc), replay.n)]
    if n >= 0:
        compare_settings(ctx, now, replay.angles(n), f'{func}: machine handed back against the last machine measured')
    # documented outcome
    hist = [rms(r) for r in readings]
    full = [not np.any(np.isnan(r)) for r in readings]
    ctx.event('shots lost on the way', sum(0 < int(np.sum(~np.isnan(r[0]))) < r.shape[1] for r in readings))
    if func == 'balance' and not full[0]:
        ctx.check(isinstance(err, ValueError) and n == 0, f'balance without two full turns: {n} steps, {err!r}')
        ctx.sig('no start', turns)
        return
    close_call = False
    want = None
    for k in range(1, maxsteps + 1):
        if k > n:
            break
        if not full[k]:
            want = (k, 'lost')
            break
        s5, s_t = stable(hist[:k + 1], 5, eps), stable(hist[:k + 1], min(5, maxsteps), eps)
        close_call |= bool(s5 is None or (target and s_t is None))
        if s5 or (target and max(hist[k]) < target and s_t):
            want = (k, 'ok')
            break
    else:
        s_t = stable(hist[:maxsteps + 1], min(5, maxsteps), eps)
        close_call |= s_t is None
        want = (maxsteps, 'ok' if func == 'correct' and (s_t or maxsteps == 1) else 'unstable')
    if func == 'correct' and not full[0]:
        want = (n, 'lost')  # nothing sensible can be corrected; must not be reported as success
        if err is not None:
            want = None
    if want is not None and not close_call:
        got = (n, 'ok' if err is None else 'lost' if not full[n] else 'unstable')
        ctx.check(got == want, f'{func} ended after {got[0]} steps with {got[1]} ({err!r}); its own readings demand {want}')
        ctx.check(err is None or isinstance(err, RuntimeError), f'{func} raised {err!r}')
    ctx.check(want is not None or err is not None or close_call, f'{func}: no stopping criterion met after {n} steps, no error')
    if err is None:
        ctx.check(full[n], f'{func} succeeded without beam at all monitors')
    ctx.sig(func, turns, maxsteps, eps, target, ref is None, kw, str(sorted(fault)), want)


# ---------------------------------------------------------------- first turn, stitching
def contiguous_upstream(ctx, d, cms, ords, last_bpm, what):
    """A wiggle moves the last few correctors upstream of the loss by one common amount."""
    nz = np.nonzero(np.abs(d) > 1e-15)[0]
    return nz


def law(ctx, replay, sc, k, dphi, cms, active, what):
    want = step_expected(sc, replay.angles(k), dphi, cms, active)
    got = replay.angles(k + 1)
    return all(np.allclose(g, w, rtol=1e-7, atol=1e-13) for g, w in zip(got, want))


def wiggle_ok(ctx, replay, sc, k, cms, bpms, T, what, lost=False):
    """Change between shots k and k+1 as a search step: one common kick for a few correctors next to each other, bounded."""
    for p in range(2):
        d = replay.angles(k + 1)[p] - replay.angles(k)[p]
        idx = [int(np.where(sc.ORD.CM[p] == i)[0][0]) for i in cms[p]]
        nz = [j for j, q in enumerate(idx) if abs(d[q]) > 1e-15]
        if not nz:
            continue
        nb = len(bpms)
        ends = {len(cms[p]) - 1 if t >= nb + 1 else int(np.sum(cms[p] <= bpms[t - 1])) - 1 for t in T if t}
        at_limit = [j for j, q in enumerate(idx) if abs(abs(replay.angles(k)[p][q]) - sc.RING[cms[p][j]].CMlimit[p]) < 1e-12]
        if not at_limit:  # those at their limit may not have moved
            ctx.check(lost or nz[-1] in ends, f'{what}: search step moved correctors up to {nz[-1]}, the last ones before the losses were {sorted(ends)}')
            ctx.check(len(nz) == nz[-1] - nz[0] + 1, f'{what}: search step moved correctors {nz}')
        vals = d[[idx[j] for j in nz]]
        lim = np.array([sc.RING[cms[p][j]].CMlimit[p] for j in nz])
        unclipped = np.abs(np.abs(replay.angles(k + 1)[p][[idx[j] for j in nz]]) - lim) > 1e-12
        ctx.check(nz[-1] - nz[0] < 8, f'{what}: search step moved correctors {nz}')
        if np.sum(unclipped) > 1:
            ctx.close(vals[unclipped], np.full(int(np.sum(unclipped)), vals[unclipped][0]), f'{what}: search step sizes', rtol=1e-6, atol=1e-12)
        ctx.check(np.max(np.abs(vals)) < 2.01e-3, f'{what}: search step of {np.max(np.abs(vals))}')
    ctx.event('search steps')


def threading(ctx):
    rng = ctx.rng
    size = float(rng.choice([4e-3, 6e-3, 10e-3]))
    lim = float(rng.choice([1e-3, 3e-3]))
    sc, o, noise = start(ctx, ap=[size, size], turns=int(rng.choice([1, 1, 2])), scale=float(rng.choice([1.0, 2.0])), kick=float(rng.choice([1e-4, 2e-4, 4e-4])), cm_limit=lim)
    z = sc.INJ.Z0.copy()
    z[:4] += rng.normal(0, 1, 4) * np.array([5e-4, 1e-4, 5e-4, 1e-4])
    sc.INJ.Z0 = z
    turns = sc.INJ.nTurns
    bpms = subset(rng, sc.ORD.BPM)
    cms = [subset(rng, sc.ORD.CM[0]), subset(rng, sc.ORD.CM[1])]
    rm = SCgetModelRM(sc, bpms, cms, trackMode='TBT', nTurns=turns, useIdealRing=True)
    ref = rng.normal(0, 5e-5, rm.shape[0]) if rng.random() < 0.4 else None
    if ref is not None and rng.random() < 0.5:
        ref = ref[:, np.newaxis]
    kw = dict(alpha=float(rng.choice([5.0, 20.0, 50.0])))
    if rng.random() < 0.2:
        kw = dict(alpha=1e3)  # hardly corrects: exercises the search
    maxsteps = int(rng.choice([1, 4, 5, 30, 60]))
    fault = {}
    if rng.random() < 0.3:
        fault[int(rng.integers(0, 12))] = np.array([float(rng.choice([8e-3, 1.0])), 0, 0, 0, 0, 0])
    shots = Shots(sc, int(rng.integers(2 ** 31)), fault)
    replay = Replay(sc, shots, bpms)
    sc.INJ.postFun = shots
    before = snap.machine(sc)
    ctx.note(size=size, turns=turns, lim=lim, maxsteps=maxsteps, fault=str(list(fault)), noise=noise, **kw)
    err = None
    try:
        ctx.check(ot.first_turn(sc, rm, reference=ref, cm_ords=cms, bpm_ords=bpms, maxsteps=maxsteps, **kw) is sc, 'first_turn returns another machine')
    except RuntimeError as e:
        err = e
    only_setpoints(ctx, before, sc, cms, 'first_turn')
    plus = my_pinv(rm, **kw)
    reference = np.zeros(rm.shape[0]) if ref is None else ref.ravel()
    readings = [replay.reading(k) for k in range(min(len(shots.log), 80))]
    ctx.event('shots replayed', len(readings))
    n_all = len(shots.log) - 1
    T = [int(np.sum(~np.isnan(r[0]))) for r in readings]
    total = readings[0].shape[1]
    searched, regular = False, 0
    for k in range(len(readings) - 1):
        r = readings[k].ravel().copy()
        r[np.isnan(r)] = 0
        dphi = plus @ (r - reference)
        reached = [i for i, x in enumerate(readings[k][0]) if not np.isnan(x)]
        last = bpms[T[k] - 1] if T[k] <= len(bpms) else None
        active = [np.array([last is None or i <= last for i in c]) for c in cms]
        if T[k] and law(ctx, replay, sc, k, dphi, cms, active, 'step'):
            regular += 1
            continue
        same = all(np.array_equal(a, b) for a, b in zip(replay.angles(k), replay.angles(k + 1)))
        allowed = searched or (regular >= 19 and len(set(T[max(0, k - 19):k + 1])) == 1)
        ctx.check(allowed, f'shot {k} -> {k + 1}: settings changed by something other than minus the pseudo-inverse times the reading '
                  f'upstream of the loss ({T[k]} of {total} monitors reached)')
        if not same:
            wiggle_ok(ctx, replay, sc, k, cms, bpms, T[max(0, k - 110):k + 1], f'shot {k + 1}')
        searched = True
    compare_settings(ctx, [s * m for s, m in zip(setpoints(sc), replay.n)], replay.angles(n_all), 'machine handed back against the last machine measured')
    if err is None:
        lastT = [int(np.sum(~np.isnan(replay.reading(k)[0]))) for k in range(max(0, n_all - 4), n_all + 1)]
        ctx.check(len(lastT) == 5 and all(t == total for t in lastT), f'first_turn succeeded with {lastT} of {total} monitors in the last readings')
    elif not searched:
        if T[0] == 0:
            ctx.check(n_all == 0, 'correction without any reading')
        full5 = next((k for k in range(4, n_all + 1) if len(set(T[k - 4:k + 1])) == 1 and T[k] == total), None)
        first_zero = next((k for k, t in enumerate(T) if t == 0), None)
        if full5 is not None:
            ctx.check(full5 == 0 or full5 > n_all or full5 > maxsteps, f'first_turn failed ({err}) although all monitors were reached five times at step {full5}')
        none_up = T[n_all] > 0 and any(not np.any(c <= bpms[min(T[n_all], len(bpms)) - 1]) for c in cms)
        ctx.check(first_zero == n_all or n_all == maxsteps or none_up, f'first_turn failed ({err}) after {n_all} steps with {T[n_all]} monitors reached')
    ctx.sig(size, turns, lim, maxsteps, kw, len(fault), err is None, searched, len(bpms))


def stitching(ctx):
    rng = ctx.rng
    size = float(rng.choice([4e-3, 6e-3, 10e-3]))
    sc, o, noise = start(ctx, ap=[size, size], turns=2, scale=1.0, kick=float(rng.choice([5e-5, 1e-4, 2e-4])))
    bpms = subset(rng, sc.ORD.BPM)
    cms = [subset(rng, sc.ORD.CM[0]), subset(rng, sc.ORD.CM[1])]
    nb = len(bpms)
    # look for settings with a full first and an incomplete second turn, as threading leaves them
    base_sp = [sc.get_cm_setpoints(c, bool(p)) for p, c in enumerate(sc.ORD.CM)]
    for _ in range(15):
        t = int(np.sum(~np.isnan(bpm_reading(sc, bpm_ords=bpms)[0][0])))
        if nb <= t < 2 * nb or rng.random() < 0.05:
            break
        f = rng.uniform(0.2, 1.6)
        for p, c in enumerate(sc.ORD.CM):
            sc.set_cm_setpoints(c, f * base_sp[p] + (rng.normal(0, 5e-5, len(c)) if t == 2 * nb else 0), bool(p))
    rm = SCgetModelRM(sc, bpms, cms, trackMode='TBT', nTurns=2, useIdealRing=True)
    ref = rng.normal(0, 5e-5, rm.shape[0]) if rng.random() < 0.4 else None
    n_bpms = int(rng.integers(1, min(6, nb)))
    if rng.random() < 0.5 and nb <= t < 2 * nb - 2:  # the search has to look for more than one monitor further
        n_bpms = min(nb, t - nb + int(rng.integers(2, 6)))
    kw = dict(alpha=float(rng.choice([5.0, 20.0, 50.0])))
    maxsteps = int(rng.choice([3, 5, 15]))
    fault = {}
    if rng.random() < 0.35:  # a shot that is lost early or late
        fault[int(rng.integers(1, 8))] = np.array([float(rng.choice([5e-3, 8e-3, 1.0])), 0, 0, 0, 0, 0])
    shots = Shots(sc, int(rng.integers(2 ** 31)), fault)
    replay = Replay(sc, shots, bpms)
    sc.INJ.postFun = shots
    before = snap.machine(sc)
    ctx.note(size=size, n_bpms=n_bpms, maxsteps=maxsteps, noise=noise, **kw)
    err = None
    try:
        ctx.check(ot.stitch(sc, rm, reference=ref, cm_ords=cms, bpm_ords=bpms, n_bpms=n_bpms, maxsteps=maxsteps, **kw) is sc, 'stitch returns another machine')
    except RuntimeError as e:
        err = e
    only_setpoints(ctx, before, sc, cms, 'stitch')
    plus = my_pinv(rm, **kw)
    reference = np.zeros((2, 2 * nb)) if ref is None else ref.reshape(2, -1).copy()
    reference[:, nb:] = 0
    n = len(shots.log) - 1
    count = min(n + 1, 60)
    readings = [replay.reading(k) for k in range(count)]
    ctx.event('shots replayed', count)
    T = [int(np.sum(~np.isnan(r[0]))) for r in readings]
    if T[0] < nb:
        ctx.check(err is not None and n == 0, f'stitch worked on with {T[0]} of {nb} monitors in the first turn')
        ctx.sig('no first turn', size)
        return
    searching = T[0] < nb + n_bpms
    ctx.event('searches', searching)
    ctx.event('searches for more than one monitor', T[0] + 1 < nb + n_bpms)
    searched = searching
    steps = 0
    for k in range(count - 1):
        r = readings[k].copy()
        m = np.zeros((2, 2 * nb))
        m[:, :nb] = r[:, :nb]
        m[:, nb:nb + n_bpms] = r[:, nb:nb + n_bpms] - r[:, :n_bpms]
        m[np.isnan(m)] = 0
        dphi = plus @ (m - reference).ravel()
        if not searching or T[k] >= nb + n_bpms:
            if law(ctx, replay, sc, k, dphi, cms, None, 'stitch'):
                searching = False
                steps += 1
                continue
        ctx.check(searching, f'stitch shot {k} -> {k + 1}: settings changed by something other than minus the pseudo-inverse times '
                  'reading (first turn) and difference of the turns')
        if not all(np.array_equal(a, b) for a, b in zip(replay.angles(k), replay.angles(k + 1))):
            wiggle_ok(ctx, replay, sc, k, cms, bpms, T[max(0, k - 110):k + 1], f'stitch shot {k + 1}', lost=bool(fault))
    compare_settings(ctx, [s * q for s, q in zip(setpoints(sc), replay.n)], replay.angles(n), 'machine handed back against the last machine measured')
    ctx.event('corrections after a search', searched and steps > 0)
    ctx.event('corrections after a lost shot', sum(0 < k < count - 1 and T[k] < nb for k in fault))
    if err is None:
        lastT = [int(np.sum(~np.isnan(replay.reading(k)[0]))) for k in range(max(0, n - 4), n + 1)]
        ctx.check(len(lastT) == 5 and all(t == 2 * nb for t in lastT), f'stitch succeeded with {lastT} of {2 * nb} monitors in the last readings')
    elif searched and steps == 0 and n + 1 < 8 * ot.WIGGLE_ANGLE_STEPS and not fault:
        seen = [int(np.sum(~np.isnan(replay.reading(k)[0]))) for k in range(n + 1)]
        # the search ends early where there are not enough correctors upstream of the loss
        upstream = min(len(c) if seen[-1] > nb else int(np.sum(c <= bpms[seen[-1] - 1])) if seen[-1] else 0 for c in cms)
        ctx.check(max(seen) >= nb + n_bpms or n >= upstream * ot.WIGGLE_ANGLE_STEPS,
                  f'stitch gave up ({err}) after {n + 1} shots with at most {max(seen)} monitors reached, {nb + n_bpms} are looked for')
        ctx.event('short searches')
    elif searched and n > 0 and all(np.array_equal(a, b) for a, b in zip(replay.angles(n - 1), replay.angles(n))):
        last = [int(np.sum(~np.isnan(replay.reading(k)[0]))) for k in (n - 1, n)]
        ctx.check(min(last) < nb + n_bpms, f'stitch gave up ({err}) although {last} monitors were reached in the last readings, {nb + n_bpms} are looked for')
        ctx.event('searches given up')
    elif not searched:
        ctx.check(n == maxsteps, f'stitch failed ({err}) after {n} of {maxsteps} steps')
        ok = next((k for k in range(5, n + 1) if all(t == 2 * nb for t in T[k - 4:k + 1])), None)
        ctx.check(ok is None, f'stitch failed ({err}) although both turns were complete five times at step {ok}')
    ctx.sig(size, n_bpms, maxsteps, kw, T[0], err is None, steps)


# ---------------------------------------------------------------- orbit feedback reaches its target
def orbit(ctx):
    rng = ctx.rng
    sc, o, noise = start(ctx, mode='ORB', turns=1, noise=bool(rng.random() < 0.3), kick=float(rng.choice([1e-5, 3e-5])), scale=0.5)
    if np.any(np.isnan(bpm_reading(sc)[0])):
        raise Skip('no closed orbit')
    use_disp = bool(rng.random() < 0.5)
    rm = SCgetModelRM(sc, sc.ORD.BPM, sc.ORD.CM, trackMode='ORB', useIdealRing=True)
    scale = 1e8
    full = rm
    if use_disp:
        eta = SCgetModelDispersion(sc, sc.ORD.BPM, sc.ORD.RF)
        full = np.column_stack((rm, scale * eta))
    ref = None
    if rng.random() < 0.5:  # a reference the correctors can reach
        ref = rm @ rng.normal(0, 1e-5, rm.shape[1])
    eps = float(rng.choice([1e-4, 1e-5]))
    before = snap.machine(sc)
    r0 = bpm_reading(sc)[0].ravel()
    a0 = np.std(r0)
    ctx.note(disp=use_disp, ref=ref is not None, eps=eps, noise=noise)
    err = None
    try:
        ot.correct(sc, full, reference=ref, alpha=0.5, eps=eps, maxsteps=30, scaleDisp=scale if use_disp else 0)
    except RuntimeError as e:
        err = e
    only_setpoints(ctx, before, sc, sc.ORD.CM, 'orbit correction', rf=use_disp)
    if err is not None:
        ctx.event('not converged')
        ctx.sig('not converged', use_disp, eps, f'{a0:.6g}')
        return
    r1 = bpm_reading(sc)[0].ravel()
    t = 0 if ref is None else ref
    a, b = np.sqrt(np.mean((r0 - t) ** 2)), np.sqrt(np.mean((r1 - t) ** 2))
    ctx.check(b < 0.5 * a or b < 2e-5, f'orbit deviation from the reference after a successful correction {b:.3g}, before {a:.3g}')
    ctx.sig(use_disp, ref is None, eps, noise, f'{a:.6g}')


# ---------------------------------------------------------------- rejections
def reject(ctx):
    rng = ctx.rng
    sc, o, noise = start(ctx, turns=2, ap=[6e-3, 6e-3])
    bpms, cms = np.array(sc.ORD.BPM), sc.ORD.CM
    rows, cols = 4 * len(bpms), len(cms[0]) + len(cms[1])
    mat = rng.normal(0, 10, (rows, cols))
    before = snap.machine(sc)
    k = int(rng.integers(9))
    ctx.note(case=k)
    funcs = [ot.first_turn, ot.stitch, ot.balance, ot.correct]
    f = funcs[int(rng.integers(4))]
    if k == 0:
        ctx.raises(ValueError, lambda: f(sc, mat[:-2]), f'{f.__name__} with too few rows')
    elif k == 1:
        ctx.raises(ValueError, lambda: f(sc, mat[:, :-1]), f'{f.__name__} with too few columns')
    elif k == 2:
        ctx.raises(ValueError, lambda: f(sc, mat, reference=np.zeros(rows - 2)), f'{f.__name__} with a short reference')
    elif k == 3:
        ctx.raises(ValueError, lambda: f(sc, mat, bpm_ords=bpms[:-1]), f'{f.__name__} with fewer monitors than rows')
    elif k == 4:
        ctx.raises(ValueError, lambda: f(sc, mat, cm_ords=[cms[0][1:], cms[1]]), f'{f.__name__} with fewer correctors than columns')
    elif k == 5:
        sc.INJ.nTurns = int(rng.choice([1, 3]))
        g = funcs[int(rng.integers(1, 3))]
        m = rng.normal(0, 10, (2 * len(bpms) * sc.INJ.nTurns, cols))
        before = snap.machine(sc)
        ctx.raises(ValueError, lambda: g(sc, m), f'{g.__name__} with {sc.INJ.nTurns} turns')
    elif k == 6:
        sc.INJ.Z0 = np.array([1.0, 0, 0, 0, 0, 0])
        before = snap.machine(sc)
        ctx.raises(RuntimeError, lambda: ot.first_turn(sc, mat), 'first_turn without any reading')
    elif k == 7:
        sc.INJ.Z0 = np.array([1.0, 0, 0, 0, 0, 0])
        before = snap.machine(sc)
        ctx.raises(RuntimeError, lambda: ot.stitch(sc, mat), 'stitch without first turn')
    elif k == 8:
        sc.INJ.Z0 = np.array([0, 0, 1.0, 0, 0, 0])
        before = snap.machine(sc)
        ctx.raises(ValueError, lambda: ot.balance(sc, mat), 'balance without two turns')
    d = snap.diff(before, snap.machine(sc))
    ctx.check(not d, f'rejected call changed the machine: {snap.describe(d)}')
    ctx.sig(k, f.__name__, rows, cols)


SCENARIOS = dict(one_step=Scenario(one_step, 90, 1500), iterations=Scenario(iterations, 150, 1500), threading=Scenario(threading, 90, 1500),
                 stitching=Scenario(stitching, 60, 1000), orbit=Scenario(orbit, 24, 300), reject=Scenario(reject, 60, 200))
