"""C10: monitor readings compared with an own tracking of the very bunches the machine used and an independent error model."""
import numpy as np
import at
from vlib import gen, snap
from vlib.common import Scenario, LogCapture
from pySC.core.beam import bpm_reading, all_elements_reading

PID = 'C10'
RULE = ('random machines with random monitor errors, bunches, losses on apertures, loss thresholds, shots, turns and tracking modes; the '
        'injection hook records the bunches, these are tracked independently and every reading, sum signal and error estimate is compared '
        'with the error model, exactly where no noise enters and within the noise bounds and moments otherwise. Distinct by settings; '
        'non-trivial when a reading exists.')
ASSUMPTIONS = ['transmission exactly at the loss threshold is judged only for thresholds that are exact in binary']


class Recorder:
    def __init__(self):
        self.z = []

    def __call__(self, z):
        self.z.append(np.array(z))
        return z


def machine(ctx, lossy=None, noise=False, sum_error=False):
    rng = ctx.rng
    if lossy is None:
        lossy = rng.random() < 0.6
    ap = [float(rng.uniform(2e-3, 6e-3)), float(rng.uniform(2e-3, 6e-3))] if lossy else None
    sc, o = gen.make_sc(rng, dict(apertures=ap), noise=False, scale=float(rng.choice([0.3, 1.0])))
    for i in sc.ORD.BPM:
        e = sc.RING[i]
        e.Roll = float(rng.normal(0, 0.2))
        e.SupportRoll = float(rng.normal(0, 0.05))
        e.Offset, e.SupportOffset = rng.normal(0, 1e-3, 2), rng.normal(0, 3e-4, 2)
        e.CalError = rng.normal(0, 0.1, 2)
        e.SumError = float(rng.uniform(0.01, 0.2)) if sum_error else 0.0
        e.Noise = rng.uniform(1e-6, 1e-4, 2) if noise else np.zeros(2)
        e.NoiseCO = rng.uniform(1e-8, 1e-6, 2) if noise else np.zeros(2)
    sc.INJ.Z0 = sc.INJ.Z0 + rng.normal(0, 1, 6) * np.array([1e-3, 1e-4, 1e-3, 1e-4, 1e-3, 1e-3]) * float(rng.choice([0.1, 1]))
    sig = np.array([1e-3, 1e-4, 1e-3, 1e-4, 1e-3, 1e-3]) * float(rng.choice([0.1, 1]))
    sc.INJ.beamSize = np.diag(sig ** 2)
    sc.INJ.randomInjectionZ = np.array([1e-4, 1e-5, 1e-4, 1e-5, 1e-4, 1e-4]) * float(rng.choice([0, 1]))
    sc.INJ.nParticles = int(rng.choice([1, 2, 4, 7, 10]))
    sc.INJ.nTurns = int(rng.integers(1, 5))
    sc.INJ.nShots = int(rng.choice([1, 1, 2, 3]))
    sc.INJ.beamLostAt = float(rng.choice([1.0, 0.5, 0.25, rng.uniform(0.05, 0.98)]))
    sc.INJ.postFun = Recorder()
    ctx.note(apertures=ap, particles=sc.INJ.nParticles, turns=sc.INJ.nTurns, shots=sc.INJ.nShots, lost_at=sc.INJ.beamLostAt)
    return sc, o


def frozen_ring(sc):
    return at.Lattice([e.deepcopy() for e in sc.RING], energy=sc.RING.energy, periodicity=1)


def truth(sc, ring, shots, refs, turns):
    """(centroid (2, refs, turns, shots), transmission (refs, turns, shots)) from the recorded bunches."""
    pos, tr = [], []
    for z in shots:
        out = at.lattice_track(ring, np.array(z), nturns=turns, refpts=np.array(refs))[0]
        alive = ~np.isnan(out[0])                      # particles x refs x turns
        n = alive.sum(axis=0)
        with np.errstate(invalid='ignore', divide='ignore'):
            x = np.where(alive, out[0], 0).sum(axis=0) / n
            y = np.where(alive, out[2], 0).sum(axis=0) / n
        pos.append(np.array([x, y]))
        tr.append(n / alive.shape[0])
    return np.stack(pos, axis=-1), np.stack(tr, axis=-1)


def error_model(sc, ords, pos):
    """Noise-free reading of the centroid pos (2, monitors, ...)."""
    out = np.empty_like(pos)
    for k, i in enumerate(ords):
        e = sc.RING[i]
        a = float(np.ravel(e.Roll)[0] + np.ravel(e.SupportRoll)[0])
        off = np.asarray(e.Offset, float) + np.asarray(e.SupportOffset, float)
        x, y = pos[0, k], pos[1, k]
        out[0, k] = (np.cos(a) * x - np.sin(a) * y - off[0]) * (1 + e.CalError[0])
        out[1, k] = (np.sin(a) * x + np.cos(a) * y - off[1]) * (1 + e.CalError[1])
    return out


def wmean(val, w, axis):
    """Mean of the finite values weighted by w, NaN where there is none; val (2, ...), w (...)"""
    ok = np.isfinite(val)
    ww = np.where(ok, np.broadcast_to(w, val.shape), 0.0)
    s = ww.sum(axis=axis)
    with np.errstate(invalid='ignore', divide='ignore'):
        return np.where(s > 0, np.where(ok, val * ww, 0.0).sum(axis=axis) / s, np.nan)


def flat(a):
    """(2, monitors, turns) -> (2, turns*monitors), turn by turn"""
    return np.concatenate([a[:, :, t] for t in range(a.shape[2])], axis=1)


def exact(ctx):
    """No noise, no sum error: readings are exact in every mode."""
    rng = ctx.rng
    sc, o = machine(ctx)
    mode = str(rng.choice(['TBT', 'TBT', 'PORB', 'ORB']))
    sc.INJ.trackMode = mode
    ctx.check(sc.INJ.trackMode == mode, 'tracking mode not taken')
    if mode == 'ORB':
        ctx.check(sc.INJ.nTurns == 1 and sc.INJ.nParticles == 1, 'closed orbit mode uses one turn and particle')
    req, sel = None, [int(i) for i in sc.ORD.BPM]
    unknown = False
    if rng.random() < 0.5:
        sub = rng.permutation(sc.ORD.BPM)[:int(rng.integers(1, len(sc.ORD.BPM) + 1))]
        sel = sorted(int(i) for i in sub)
        req = sub.copy()
        if rng.random() < 0.3:
            unknown = True
            req = np.append(req, [int(sc.ORD.Magnet[0])])
    ring = frozen_ring(sc)
    rec = sc.INJ.postFun
    errs = bool(rng.random() < 0.4)
    before = snap.machine(sc)
    with LogCapture() as log:
        res = bpm_reading(sc, bpm_ords=req, calculate_errors=errs) if errs else bpm_reading(sc, req)
    d = snap.diff(before, snap.machine(sc))
    ctx.check(not d, f'reading changed the machine: {snap.describe(d)}')
    ctx.check(bool([w for w in log.messages('WARNING') if 'registered' in w]) == unknown, 'warning about unregistered monitors')
    turns, shots = sc.INJ.nTurns, sc.INJ.nShots
    lost_at = sc.INJ.beamLostAt
    if mode == 'ORB':
        orb = at.find_orbit6(ring, np.array(sel))[1].T[[0, 2]].reshape(2, len(sel), 1, 1)
        pos, tr = np.repeat(orb, shots, axis=3), np.ones((len(sel), 1, shots))
        tr[np.isnan(pos[0])] = 0.0
    else:
        ctx.check(len(rec.z) == shots, f'{len(rec.z)} bunches injected for {shots} shots')
        for z in rec.z:
            ctx.check(np.shape(z) == (6, sc.INJ.nParticles), f'bunch of shape {np.shape(z)}')
        pos, tr = truth(sc, ring, rec.z, sel, turns)
    readings = error_model(sc, sel, pos)
    lost = tr < 1 - lost_at
    readings[:, lost] = np.nan
    trm = np.where(lost, np.nan, tr)
    mean = wmean(readings, trm, axis=3)
    sums = np.nansum(trm, axis=2) / shots
    if mode == 'PORB':
        m2 = wmean(mean, sums, axis=2)
        mean, sums = m2[:, :, None], (sums.sum(axis=1) / turns)[:, None]
    ctx.close(res[0], flat(mean), f'{mode} reading', rtol=1e-9, atol=1e-13)
    ctx.close(res[1], flat(np.stack([sums, sums])), f'{mode} sum signal', rtol=1e-9, atol=1e-13)
    if errs and mode == 'TBT':
        ctx.check(len(res) == 3, 'no error estimate')
        full = readings.copy()
        full[:, np.any(np.isnan(readings[0]), axis=2)] = np.nan
        err = np.sqrt(wmean((full - mean[..., None]) ** 2, trm, axis=3))
        ctx.close(res[2], flat(err), 'reading error', rtol=1e-7, atol=1e-12)
    else:
        ctx.check(len(res) == 2, f'{len(res)} results')
    ctx.event('readings', int(np.isfinite(mean).sum()))
    ctx.event('lost readings', int(np.isnan(mean).sum()))
    ctx.event('partially lost', int(((tr > 0) & (tr < 1)).sum()))
    ctx.note(mode=mode, monitors=len(sel), requested='all' if req is None else len(req))
    if np.isfinite(mean).any():
        ctx.sig(mode, len(sel), sc.INJ.nParticles, turns, shots, lost_at, ctx.idx)


def noisy(ctx):
    """Noise and sum-signal error: bounds for every reading, exact sums within their error, averages between the shots."""
    rng = ctx.rng
    sum_error = bool(rng.random() < 0.5)
    sc, o = machine(ctx, noise=True, sum_error=sum_error)
    mode = str(rng.choice(['TBT', 'TBT', 'ORB', 'PORB']))
    sc.INJ.trackMode = mode
    ring = frozen_ring(sc)
    rec = sc.INJ.postFun
    sel = [int(i) for i in sc.ORD.BPM]
    res = bpm_reading(sc)
    again = None
    turns, shots = sc.INJ.nTurns, sc.INJ.nShots
    if mode == 'ORB':
        orb = at.find_orbit6(ring, np.array(sel))[1].T[[0, 2]].reshape(2, len(sel), 1, 1)
        pos, tr = np.repeat(orb, shots, axis=3), np.ones((len(sel), 1, shots))
        tr[np.isnan(pos[0])] = 0.0
        again = bpm_reading(sc)[0]
    else:
        pos, tr = truth(sc, ring, rec.z, sel, turns)
    readings = error_model(sc, sel, pos)
    se = np.array([sc.RING[i].SumError for i in sel])[:, None, None]
    lo, hi = tr * (1 - 2 * se), tr * (1 + 2 * se)
    thr = 1 - sc.INJ.beamLostAt
    surely, never = lo >= thr + 1e-12 if sum_error else lo >= thr, hi < thr
    surely &= tr > 0
    never |= tr == 0
    noise = np.array([np.asarray(sc.RING[i].NoiseCO if mode == 'ORB' else sc.RING[i].Noise) for i in sel]).T
    with np.errstate(divide='ignore', invalid='ignore'):
        amp = 2 * noise[:, :, None, None] / lo
    got = res[0].reshape(2, -1, len(sel)).transpose(0, 2, 1)
    s = res[1].reshape(2, -1, len(sel)).transpose(0, 2, 1)
    ctx.close(s[0], s[1], 'sum signal of both planes', rtol=0, atol=0)
    if mode == 'PORB':
        lo_r = np.where(surely | ~never, readings - amp, np.inf).min(axis=(2, 3))[:, :, None]
        hi_r = np.where(surely | ~never, readings + amp, -np.inf).max(axis=(2, 3))[:, :, None]
        surely_any, never_all = surely.any(axis=(1, 2))[:, None], never.all(axis=(1, 2))[:, None]
        smin = np.where(surely, lo, 0).sum(axis=(1, 2))[:, None] / (turns * shots)
        smax = np.where(~never, hi, 0).sum(axis=(1, 2))[:, None] / (turns * shots)
    else:
        lo_r = np.where(~never, readings - amp, np.inf).min(axis=3)
        hi_r = np.where(~never, readings + amp, -np.inf).max(axis=3)
        surely_any, never_all = surely.any(axis=2), never.all(axis=2)
        smin = np.where(surely, lo, 0).sum(axis=2) / shots
        smax = np.where(~never, hi, 0).sum(axis=2) / shots
    for p in range(2):
        fin = np.isfinite(got[p])
        ctx.check(np.all(fin[surely_any]), 'monitor which sees beam has no reading')
        ctx.check(not np.any(fin[never_all]), 'monitor without beam has a reading')
        ok = (got[p] >= lo_r[p] - 1e-12) & (got[p] <= hi_r[p] + 1e-12)
        ctx.check(np.all(ok[fin]), f'{mode} reading outside the noise bounds: {got[p][fin & ~ok][:3]} not in '
                                   f'[{lo_r[p][fin & ~ok][:3]}, {hi_r[p][fin & ~ok][:3]}]')
        if shots == 1 and turns == 1 and mode != 'PORB':
            ctx.check(np.all(got[p][fin] != readings[p, :, :, 0][fin]), 'reading without noise')
    ctx.check(np.all((s[0] >= smin - 1e-12) & (s[0] <= smax + 1e-12)), 'sum signal outside its error')
    if sum_error and np.any((smin > 0) & (smax > smin)):
        ctx.check(len(np.unique(s[0][s[0] > 0])) > 1 or (s[0] > 0).sum() <= 1, 'sum signal without error')
    if again is not None:
        ctx.check(not np.any(again == res[0]), 'noise is the same in two readings')
    ctx.event('noisy readings', int(np.isfinite(got).sum()))
    ctx.note(mode=mode, sum_error=sum_error)
    if np.isfinite(got).any():
        ctx.sig(mode, sum_error, ctx.idx)


def moments(ctx):
    """Distribution of the noise: width, independence of monitors, planes, turns and shots, scaling with transmission."""
    rng = ctx.rng
    sc, o = machine(ctx, lossy=False, noise=True)
    sc.INJ.nShots = 1
    sc.INJ.nTurns = int(rng.integers(1, 4))
    mode = str(rng.choice(['TBT', 'ORB']))
    sc.INJ.trackMode = mode
    half = mode == 'TBT' and rng.random() < 0.5
    sc.INJ.randomInjectionZ = np.zeros(6)
    sc.INJ.nParticles = 2
    if half:   # one of two particles starts outside an aperture, the other on the reference orbit
        sc.INJ.beamSize = np.zeros((6, 6))
        sc.RING[1].RApertures = np.array([-0.1, 0.1, -0.1, 0.1])
        sc.INJ.postFun = lambda z: np.column_stack((z[:, 0], z[:, 0] + np.array([0.3, 0, 0, 0, 0, 0])))
    else:
        sc.INJ.beamSize = np.zeros((6, 6))
        sc.INJ.postFun = lambda z: z
    if mode == 'ORB':
        sc.INJ.nParticles = 1
    sc.INJ.beamLostAt = 0.9
    ring = frozen_ring(sc)
    sel = [int(i) for i in sc.ORD.BPM]
    if mode == 'ORB':
        pos = at.find_orbit6(ring, np.array(sel))[1].T[[0, 2]].reshape(2, len(sel), 1, 1)
        tr = np.ones((len(sel), 1, 1))
    else:
        z = np.tile(sc.INJ.Z0.reshape(6, 1), 2)
        pos, tr = truth(sc, ring, [sc.INJ.postFun(z)], sel, sc.INJ.nTurns)
    want = flat(error_model(sc, sel, pos)[..., 0])
    trans = np.concatenate([tr[:, t, 0] for t in range(tr.shape[1])])
    n = np.array([np.asarray(sc.RING[i].NoiseCO if mode == 'ORB' else sc.RING[i].Noise) for i in sel]).T
    n = np.tile(n, sc.INJ.nTurns)
    reps = 60 if ctx.thorough else 25
    data, sums = [], []
    se = rng.uniform(1e-3, 5e-2, len(sel)) * (rng.random() < 0.6)    # width of the sum signal errors
    for i, w in zip(sel, se):
        sc.RING[i].SumError = w
    seen_sum = np.tile(se, sc.INJ.nTurns)
    for _ in range(reps):
        r, sig = bpm_reading(sc)
        rel = sig[0] / np.where(trans > 0, trans, np.nan)
        sums.append((rel - 1) / np.where(seen_sum, seen_sum, 1))
        data.append((r - want) * trans * rel / n)    # noise grows with the inverse of the (measured) transmission
    x = np.array(data)
    seen = trans > 0
    if not seen.any():
        return
    y = np.array(sums)[:, seen]
    if se.any():
        ctx.check(np.all(np.abs(y) <= 2 + 1e-9), f'sum signal error of {np.max(np.abs(y))} sigmas')
        ctx.check(abs(np.mean(y)) < 6 * np.sqrt(0.774 / y.size), f'sum signal error with mean {np.mean(y)} sigma')
        ctx.check(abs(np.mean(y ** 2) / 0.7737413035 - 1) < 6 * np.sqrt(2 / y.size), f'sum signal error has variance {np.mean(y ** 2)} sigma^2')
        ctx.check(len(np.unique(np.round(y.ravel(), 11))) > 0.98 * y.size, 'sum signal errors repeat')
        for p in range(2):
            c = np.mean(y * x[:, p][:, seen]) / 0.774
            ctx.check(abs(c) < 7 / np.sqrt(y.size), f'sum signal error and noise are correlated: {c}')
        ctx.event('sum signal draws', y.size)
    else:
        ctx.close(y, np.zeros(y.shape), 'sum signal without error', rtol=0, atol=1e-12)
    x = x[:, :, seen]
    cnt = x.size
    ctx.check(np.all(np.abs(x) <= 2 + 1e-4), f'noise of {np.max(np.abs(x))} sigmas')
    v = 0.7737413035
    ctx.check(abs(np.mean(x)) < 6 * np.sqrt(v / cnt), f'noise mean {np.mean(x)}')
    ctx.check(abs(np.mean(x ** 2) / v - 1) < 6 * np.sqrt(2 / cnt), f'noise variance {np.mean(x ** 2)} sigma^2 instead of {v} (transmission {trans.min()})')
    u = np.unique(np.round(x, 5))
    ctx.check(len(np.unique(np.round(x.ravel(), 11))) > 0.98 * cnt or len(u) > 0.5 * min(cnt, 4e5), 'noise values repeat')
    for a, b, t in ((x[:, 0], x[:, 1], 'planes'), (x[:, :, :-1], x[:, :, 1:], 'neighbouring monitors'), (x[:-1], x[1:], 'readings')):
        if a.size > 100:
            c = np.mean(a * b) / v
            ctx.check(abs(c) < 7 / np.sqrt(a.size), f'noise of {t} is correlated: {c}')
    ctx.event('noise draws', cnt)
    ctx.note(mode=mode, half=half, draws=cnt)
    ctx.sig(mode, half, ctx.idx)


def everywhere(ctx):
    """Reading of all elements: particle positions at every element, monitors as in bpm_reading."""
    rng = ctx.rng
    sc, o = machine(ctx)
    sc.INJ.trackMode = 'TBT'
    ring = frozen_ring(sc)
    rec = sc.INJ.postFun
    before = snap.machine(sc)
    res = all_elements_reading(sc)
    d = snap.diff(before, snap.machine(sc))
    ctx.check(not d, f'reading changed the machine: {snap.describe(d)}')
    turns, shots, n = sc.INJ.nTurns, sc.INJ.nShots, len(sc.RING) + 1
    ctx.check(len(rec.z) == shots, f'{len(rec.z)} bunches for {shots} shots')
    ctx.check(np.shape(res[1]) == (2, sc.INJ.nParticles, n, turns, shots), f'shape {np.shape(res[1])}')
    for k, z in enumerate(rec.z):
        out = at.lattice_track(ring, z.copy(), nturns=turns, refpts=np.arange(n))[0][[0, 2]]
        out[:, np.isnan(out[0])] = np.nan
        ctx.close(res[1][..., k], out, f'positions in shot {k}', rtol=1e-10, atol=1e-15)
    sel = [int(i) for i in sc.ORD.BPM]
    pos, tr = truth(sc, ring, rec.z, sel, turns)
    r = error_model(sc, sel, pos)
    r[:, tr < 1 - sc.INJ.beamLostAt] = np.nan
    ok = np.isfinite(r)
    with np.errstate(invalid='ignore', divide='ignore'):
        mean = np.where(ok, r, 0).sum(axis=3) / ok.sum(axis=3)
    ctx.close(res[0], flat(mean), 'monitor reading', rtol=1e-9, atol=1e-13)
    ctx.event('positions', int(np.isfinite(res[1]).sum()))
    ctx.sig(ctx.idx, turns, shots)


def requests(ctx):
    """Requests that cannot be served, and mode changes."""
    rng = ctx.rng
    sc, o = machine(ctx, lossy=False)
    before = snap.machine(sc)
    ctx.raises(ValueError, lambda: bpm_reading(sc, np.array([int(i) for i in sc.ORD.Magnet[:2]])), 'only unregistered monitors requested')
    for bad in ('tbt', 'XX', '', None, 'orbit'):
        ctx.raises(AttributeError, lambda: setattr(sc.INJ, 'trackMode', bad), f'tracking mode {bad!r}')
    d = snap.diff(before, snap.machine(sc))
    ctx.check(not d, f'rejected requests changed the machine: {snap.describe(d)}')
    turns, parts = sc.INJ.nTurns, sc.INJ.nParticles
    for mode in rng.permutation(['TBT', 'PORB']):
        sc.INJ.trackMode = str(mode)
        ctx.check((sc.INJ.nTurns, sc.INJ.nParticles) == (turns, parts), f'{mode} changed turns or particles')
    sc.INJ.trackMode = 'ORB'
    ctx.check((sc.INJ.nTurns, sc.INJ.nParticles) == (1, 1), 'closed orbit mode uses one turn and particle')
    a = bpm_reading(sc)[0]
    b = bpm_reading(sc, sc.ORD.BPM)[0]
    ctx.close(a, b, 'requesting all monitors', rtol=0, atol=1e-15)
    k = int(rng.integers(len(sc.ORD.BPM)))
    ctx.close(bpm_reading(sc, sc.ORD.BPM[[k]])[0], a[:, [k]], 'requesting one monitor', rtol=0, atol=1e-12)
    ctx.check(np.shape(a) == (2, len(sc.ORD.BPM)), f'shape {a.shape}')
    ctx.sig(ctx.idx)


SCENARIOS = dict(exact=Scenario(exact, 360, 3000), noisy=Scenario(noisy, 240, 2000), moments=Scenario(moments, 48, 200),
                 everywhere=Scenario(everywhere, 72, 400), requests=Scenario(requests, 24, 40))
