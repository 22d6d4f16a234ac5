"""C20: every tracked beam of a scan is logged with the settings it saw and re-tracked on copies; fitted machines are compared with separately computed optics."""
import re
import numpy as np
import at
from vlib import gen, snap
from vlib.common import LogCapture, Scenario, Skip
from pySC.core.beam import beam_transmission
from pySC.correction.tune import tune_scan, fit_tune
from pySC.correction.chroma import fit_chroma

PID = 'C20'
RULE = ('random machines with errors and tight apertures, random families (order, size, overlap of types), grids of different lengths and centres, targets, '
        'numbers of points, particles and turns, starting settings away from design; fits to reachable targets with and without integer part. '
        'Distinct by settings; each visited grid point is tracked again on a copy.')
ASSUMPTIONS = ['beams of a scan are made repeatable by the injection hook', 'a pair visited twice may be reported from either visit',
               'fits are judged on targets that small common changes of the families reach']


UNSTABLE = (at.lattice.AtError, ValueError, np.linalg.LinAlgError)   # what AT raises without a stable optics


class Beams:
    """Injection hook: same bunch for each shot, log of the settings seen."""

    def __init__(self, sc, ords, bunch):
        self.sc, self.ords, self.bunch, self.log = sc, ords, bunch, []

    def __deepcopy__(self, memo):
        return self

    def __call__(self, z):
        if self.sc is not None:
            self.log.append(np.array([self.sc.RING[i].SetPointB[1] for i in self.ords]))
        return self.bunch[:, :z.shape[1]].copy()


class Fixed:
    def __init__(self, bunch):
        self.bunch = bunch

    def __deepcopy__(self, memo):
        return self

    def __call__(self, z):
        return self.bunch[:, :z.shape[1]].copy()


def families(ctx, o):
    rng = ctx.rng
    k = int(rng.integers(4))
    if k == 0:
        return [o['qf'], o['qd']]
    if k == 1:
        return [o['qd'], o['qf']]
    if k == 2:
        n = len(o['qf']) // 2
        return [rng.permutation(o['qf'][:n]), rng.permutation(o['qf'][n:])]
    return [o['qd'][::2], np.concatenate((o['qf'][:2], o['qd'][1::2][:1]))]


def only_quads(ctx, before, sc, ords, order, what):
    ok = set(int(i) for i in np.hstack(ords))
    for path, a, b in snap.diff(before, snap.machine(sc), rtol=1e-12, atol=1e-15):
        idx = next((int(p) for p in path if isinstance(p, (int, np.integer))), -1)
        comp = path[-1][-1] if isinstance(path[-1], tuple) else path[-1]
        good = idx in ok and (any(str(p) in ('SetPointB', 'PolynomB') for p in path) and comp == order or any(str(p) in ('K', 'H') for p in path))
        ctx.check(good, f'{what} changed {path}: {a} -> {b}')


def scan(ctx):
    rng = ctx.rng
    ap = float(rng.choice([3e-3, 5e-3, 8e-3]))
    sc, o = gen.make_sc(rng, dict(apertures=[ap, ap]), scale=float(rng.choice([0.3, 1.0])))
    fam = families(ctx, o)
    ords = np.hstack(fam)
    n_part = int(rng.choice([1, 1, 12, 30]))
    n_turns = int(rng.choice([3, 10, 40]))
    sc.INJ.beamLostAt = float(rng.choice([0.6, 0.9, 0.3, 1.0]))
    z = sc.INJ.Z0 + rng.normal(0, 1, 6) * np.array([5e-4, 1e-4, 5e-4, 1e-4, 1e-4, 0])
    spread = np.array([1e-3, 1e-4, 1e-3, 1e-4, 1e-4, 1e-3]) * float(rng.choice([0.1, 1.0]))
    bunch = z[:, None] + spread[:, None] * rng.standard_normal((6, 50))
    pts = [int(rng.choice([1, 2, 5, 9])), int(rng.choice([1, 3, 6, 9]))]
    width = float(rng.choice([0.01, 0.1, 0.3]))
    rel = [1 + float(rng.choice([0, 0.05])) + width * np.sort(rng.uniform(-1, 1, n)) for n in pts]
    if rng.random() < 0.3:
        rel = [r.tolist() for r in rel]
    n_points = int(rng.choice([2, 5, 12, 25]))
    full = bool(rng.random() < 0.3)
    target = float(rng.choice([1, 0.5, 0.0, 2.0]))
    if rng.random() < 0.3:  # just above what some number of particles gives
        target = int(rng.integers(n_part + 1)) / n_part + float(rng.choice([1e-9, 1e-6]))
    explicit = bool(rng.random() < 0.5)
    kw = dict(n_points=n_points)
    if target != 1 or rng.random() < 0.5:
        kw['target'] = target
    if full or rng.random() < 0.5:
        kw['full_scan'] = full
    if explicit:
        kw.update(nParticles=n_part, nTurns=n_turns)
        sc.INJ.nParticles, sc.INJ.nTurns = 3, 7
    else:
        sc.INJ.nParticles, sc.INJ.nTurns = n_part, n_turns
    if rng.random() < 0.5:  # not at design
        sc.set_magnet_setpoints(ords, 1 + 0.02 * rng.standard_normal(len(ords)), False, 1, 'rel')
    if rng.random() < 0.15 and not isinstance(rel[0], list):
        kw['do_plot'] = True
    if rng.random() < 0.08:
        bunch[0] += 1.0  # nothing survives
    nom = np.array([sc.IDEALRING[i].PolynomB[1] for i in ords])
    hook = Beams(sc, ords, bunch)
    sc.INJ.postFun = hook
    ref = sc.very_deep_copy()
    ref.INJ.postFun = Fixed(bunch)
    before = snap.machine(sc)
    init = np.array([sc.RING[i].SetPointB[1] for i in ords])
    ctx.note(ap=ap, fam=[len(f) for f in fam], pts=pts, width=width, n_part=n_part, n_turns=n_turns, lost=sc.INJ.beamLostAt, **kw)
    err = None
    try:
        with LogCapture() as log:
            out = tune_scan(sc, fam, rel, **kw)
    except RuntimeError as e:
        err = e
    only_quads(ctx, before, sc, fam, 1, 'tune scan')
    ctx.check(0 < len(hook.log) <= n_points, f'{len(hook.log)} beams tracked for {n_points} points')

    def track(s1, s2):
        r = ref.very_deep_copy()
        v = np.hstack((np.full(len(fam[0]), s1), np.full(len(fam[1]), s2))) * nom
        for i, x in zip(ords, v):
            r.RING[i].SetPointB[1] = x
        r.update_magnets(ords)
        return beam_transmission(r, nParticles=n_part, nTurns=n_turns)
    # which pairs were visited: from the settings seen by the beams
    visited, history = {}, []
    for k, sp in enumerate(hook.log):
        f = sp / nom
        a, b = f[0], f[len(fam[0])]
        ctx.close(f, np.hstack((np.full(len(fam[0]), a), np.full(len(fam[1]), b))), f'point {k}: relative setpoints of the families', rtol=1e-9)
        i, j = int(np.argmin(np.abs(np.array(rel[0]) - a))), int(np.argmin(np.abs(np.array(rel[1]) - b)))
        ctx.close([a, b], [rel[0][i], rel[1][j]], f'point {k}: setting is not one of the given', rtol=1e-9)
        if (i, j) not in visited:
            visited[(i, j)] = track(rel[0][i], rel[1][j])
        history.append((i, j))
    ctx.event('points visited', len(history))
    if err is not None:
        ctx.check(all(v[0] == 0 for v in visited.values()) and len(history) == n_points, f'scan gave up ({err}) although {max(v[0] for v in visited.values())} turns were reached')
        ctx.close(np.array([sc.RING[i].SetPointB[1] for i in ords]), init, 'setpoints after a scan without any transmission', rtol=1e-12)
        ctx.event('no transmission')
        ctx.sig('none', pts, n_points)
        return
    ctx.check(isinstance(out, tuple) and len(out) == 4 and out[0] is sc, 'tune_scan returned something else')
    _, best, turns, trans = out
    turns, trans = np.asarray(turns, dtype=float), np.asarray(trans, dtype=float)
    ctx.check(turns.shape == tuple(pts) and trans.shape == tuple(pts) + (n_turns,), f'result shapes {turns.shape}, {trans.shape}')
    for i in range(pts[0]):
        for j in range(pts[1]):
            if (i, j) in visited:
                t, f = visited[(i, j)]
                ctx.check(turns[i, j] == t, f'pair {i},{j}: reported {turns[i, j]} turns, tracking gives {t}')
                ctx.close(trans[i, j], f, f'pair {i},{j}: reported transmission', atol=1e-12)
            else:
                ctx.check(np.isnan(turns[i, j]) and np.all(np.isnan(trans[i, j])), f'pair {i},{j} was not visited but reported')
    final = np.array([visited[p][1][-1] for p in history])
    hit = np.nonzero(final >= target)[0]
    if not full and len(hit):
        ctx.check(hit[0] == len(history) - 1, f'scan went on after the target was reached at point {hit[0]} of {len(history)}')
        ctx.close(list(best), [rel[0][history[-1][0]], rel[1][history[-1][1]]], 'returned setpoints of the point that reached the target')
        ctx.event('target reached')
    else:
        ctx.check(len(history) == n_points, f'scan stopped after {len(history)} of {n_points} points without reaching the target')
        i, j = int(np.argmin(np.abs(np.array(rel[0]) - best[0]))), int(np.argmin(np.abs(np.array(rel[1]) - best[1])))
        ctx.close(list(best), [rel[0][i], rel[1][j]], 'returned setpoints are not on the grid', rtol=1e-12)
        ctx.check((i, j) in visited, f'chosen pair {i},{j} was never visited')
        if np.max(final) > 0:
            ctx.check(visited[(i, j)][1][-1] == np.max(final), f'chosen pair transmits {visited[(i, j)][1][-1]}, the best {np.max(final)}')
        else:
            ctx.check(visited[(i, j)][0] == max(v[0] for v in visited.values()), f'chosen pair reaches {visited[(i, j)][0]} turns, the best {max(v[0] for v in visited.values())}')
        ctx.event('best chosen')
    now = np.array([sc.RING[i].SetPointB[1] for i in ords])
    ctx.close(now, nom * np.hstack((np.full(len(fam[0]), best[0]), np.full(len(fam[1]), best[1]))), 'setpoints left in the machine', rtol=1e-12)
    # setpoints announced to the user, if they are announced
    told = re.findall(r'SetPoint:\s*(-?[0-9.]+)', ' '.join(t for lv, t in log.records if lv in ('INFO', 'WARNING')))
    if len(told) == 2:
        ctx.close([float(x) for x in told], list(best), 'setpoints announced in the log', rtol=0, atol=5.1e-5)
        ctx.event('announced')
    ctx.sig(pts, width, n_part, n_turns, n_points, target, full, len(set(history)), f'{np.max(final):.6g}')


# ---------------------------------------------------------------- fits
def tunes(ring, integer):
    r = ring.deepcopy()
    if integer:
        return np.array(at.get_optics(r, np.arange(len(r) + 1))[2][-1].mu[:2]) / 2 / np.pi
    return np.array(at.get_optics(r)[1].tune[:2])


def changed(sc, fam, order, dx):
    c = sc.very_deep_copy()
    for f, d in zip(fam, dx):
        for i in f:
            c.RING[i].SetPointB[order] += d
        c.update_magnets(np.array(f))
    return c


def common_change(ctx, sc, fam, first, order, what):
    for f, v in zip(fam, first):
        d = np.array([sc.RING[i].SetPointB[order] for i in f]) - v
        ctx.close(d, np.full(len(f), d[0]), f'{what}: change of the setpoints within a family', rtol=1e-6, atol=1e-12)
    return [float(sc.RING[f[0]].SetPointB[order] - v[0]) for f, v in zip(fam, first)]


def tune_fit(ctx):
    rng = ctx.rng
    integer = bool(rng.random() < 0.5)
    sc, o = gen.make_sc(rng, scale=float(rng.choice([0.1, 0.5])))
    fam = [o['qf'], o['qd']] if rng.random() < 0.7 else [o['qd'][::2], o['qf'][1::2]]
    if rng.random() < 0.5:
        sc.set_magnet_setpoints(np.hstack(fam), 1 + 0.003 * rng.standard_normal(len(np.hstack(fam))), False, 1, 'rel')
    first = [np.array([sc.RING[i].SetPointB[1] for i in f]) for f in fam]
    far = False
    if rng.random() < 0.25:  # another integer part than the design
        for f in rng.uniform(0.95, 1.6, (25, 2)):
            c = sc.very_deep_copy()
            for k in range(2):
                c.set_magnet_setpoints(fam[k], float(f[k]), False, 1, 'rel')
            try:
                t = tunes(c.RING, True)
            except UNSTABLE:
                continue
            if np.all(np.isfinite(t)) and np.any(np.floor(t) != np.floor(tunes(sc.IDEALRING, True))) and np.all(np.abs(t % 0.5 - 0.25) < 0.2):
                sc, far, integer = c, True, True
                ctx.event('other integer part')
                break
    first = [np.array([sc.RING[i].SetPointB[1] for i in f]) for f in fam]
    if rng.random() < 0.7 and not far:
        dx = rng.uniform(-0.008, 0.008, 2)
        target = tunes(changed(sc, fam, 1, dx).RING, integer)
    else:
        target, dx = None, None
    goal = tunes(sc.IDEALRING, integer) if target is None else target
    start = tunes(sc.RING, integer)
    if not (np.all(np.isfinite(start)) and np.all(np.isfinite(goal))):
        raise Skip('no stable optics')
    twin = sc.very_deep_copy() if target is None else None
    near = all(abs((g % 0.5) - 0.25) < 0.24 for g in list(goal) + list(start)) and np.all(np.floor(2 * goal) == np.floor(2 * start))
    before = snap.machine(sc)
    ctx.note(integer=integer, fam=[len(f) for f in fam], start=start.tolist(), goal=goal.tolist(), dx=None if dx is None else dx.tolist())
    kw = {} if integer and rng.random() < 0.5 else dict(fit_integer=integer)
    if target is not None:
        t0 = target.copy()
        kw['target_tune'] = target
    try:
        out = fit_tune(sc, fam, **kw)
    except UNSTABLE as e:
        if far:
            raise Skip(f'no way to the target: {e}')
        raise
    ctx.check(out is sc, 'fit_tune returns another machine')
    ctx.check(target is None or np.array_equal(t0, target), 'fit_tune changed the target')
    only_quads(ctx, before, sc, fam, 1, 'tune fit')
    if twin is not None:  # without a target: the design's tunes
        fit_tune(twin, fam, target_tune=goal.copy(), fit_integer=integer)
        for f in fam:
            ctx.close([sc.RING[i].SetPointB[1] for i in f], [twin.RING[i].SetPointB[1] for i in f], 'fit without target and to the tunes of the design', rtol=1e-9)
    common_change(ctx, sc, fam, first, 1, 'tune fit')
    now = tunes(sc.RING, integer)
    a, b = np.sqrt(np.mean((start - goal) ** 2)), np.sqrt(np.mean((now - goal) ** 2))
    ctx.check(b <= a * (1 + 1e-9) + 1e-12, f'tunes {a:.3g} away from the target before, {b:.3g} after the fit')
    if near and dx is not None:
        ctx.check(b < 2e-3, f'tunes {now} after the fit, target {goal} (reached by {dx})')
        ctx.event('targets reached')
    ctx.sig(integer, start.tolist(), goal.tolist())


def chrom(ring):
    return np.array(ring.deepcopy().get_chrom()[:2])


def chroma_fit(ctx):
    rng = ctx.rng
    sc, o = gen.make_sc(rng, scale=float(rng.choice([0.03, 0.3])))
    fam = [o['sf'], o['sd']] if rng.random() < 0.7 else [o['sd'], o['sf'][::2]]
    if rng.random() < 0.5:
        sc.set_magnet_setpoints(np.hstack(fam), 1 + 0.02 * rng.standard_normal(len(np.hstack(fam))), False, 2, 'rel')
    first = [np.array([sc.RING[i].SetPointB[2] for i in f]) for f in fam]
    kind = int(rng.integers(4))
    dx = None
    if kind == 0:
        target = None
        goal = chrom(sc.IDEALRING)
    elif kind == 1:
        target = goal = rng.uniform(-1, 1, 2)
    else:
        dx = rng.uniform(-1.5, 1.5, 2)
        target = goal = chrom(changed(sc, fam, 2, dx).RING)
    start = chrom(sc.RING)
    if not (np.all(np.isfinite(start)) and np.all(np.isfinite(goal))):
        raise Skip('no stable optics')
    before = snap.machine(sc)
    ctx.note(kind=kind, start=start.tolist(), goal=goal.tolist())
    kw = {} if target is None else dict(target_chroma=target)
    step = None
    if rng.random() < 0.3:
        step = rng.choice([-1, 1], 2) * rng.uniform(0.5, 3, 2)
        kw['init_step_size'] = step.copy()
    out = fit_chroma(sc, fam, **kw)
    ctx.check(out is sc, 'fit_chroma returns another machine')
    ctx.check(step is None or np.array_equal(step, kw['init_step_size']), 'fit_chroma changed its arguments')
    only_quads(ctx, before, sc, fam, 2, 'chromaticity fit')
    common_change(ctx, sc, fam, first, 2, 'chromaticity fit')
    now = chrom(sc.RING)
    a, b = np.sqrt(np.mean((start - goal) ** 2)), np.sqrt(np.mean((now - goal) ** 2))
    if a > 5e-3:
        ctx.check(b < a, f'chromaticities {a:.3g} away from the target before, {b:.3g} after the fit')
    if dx is not None:
        ctx.check(b < 2e-2, f'chromaticities {now} after the fit, target {goal} (reached by {dx})')
        ctx.event('targets reached')
    ctx.sig(kind, start.tolist(), goal.tolist())


def chroma_reject(ctx):
    rng = ctx.rng
    sc, o = gen.make_sc(rng, scale=0.1)
    t = chrom(sc.RING)
    t[int(rng.integers(2))] = np.nan
    before = snap.machine(sc)
    out = fit_chroma(sc, [o['sf'], o['sd']], target_chroma=t)
    d = snap.diff(before, snap.machine(sc))
    ctx.check(out is sc and not d, f'NaN as target changed the machine: {snap.describe(d)}')
    ctx.sig(t.tolist())


SCENARIOS = dict(scan=Scenario(scan, 80, 1000), tune_fit=Scenario(tune_fit, 20, 200), chroma_fit=Scenario(chroma_fit, 20, 200), chroma_reject=Scenario(chroma_reject, 4, 20))
