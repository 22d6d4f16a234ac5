"""C22: circumference scaling compared element by element with the lattice before, over sequences of absolute and relative scalings."""
import numpy as np
import at
from vlib import gen, snap
from vlib.common import Scenario
from pySC.utils.sc_tools import scale_circumference

PID = 'C22'
RULE = ('random rings (drifts of all lengths, drift-like markers, magnets, monitors with length) scaled repeatedly with random absolute and '
        'relative values and back; circumference errors through error application. Distinct by ring and sequence.')
ASSUMPTIONS = ['Rings contain at least one drift.']


def any_ring(rng):
    if rng.random() < 0.3:
        return gen.make_ring(rng)
    els = []
    for i in range(int(rng.integers(1, 25))):
        k = int(rng.integers(0, 7))
        length = float(rng.choice([rng.uniform(0.01, 5), rng.uniform(1e-4, 1e-2)]))
        if k <= 2:
            els.append(at.Drift('D', length))
        elif k == 3:
            els.append(at.Quadrupole('Q', length, 0.3))
        elif k == 4:
            els.append(at.Marker('M'))
        elif k == 5:
            els.append(at.Dipole('B', length, 0.1, 0.0))
        else:
            els.append(at.Monitor('BPM'))
            if rng.random() < 0.5:
                els[-1].PassMethod = 'DriftPass'
                els[-1].Length = length
    els.insert(int(rng.integers(0, len(els) + 1)), at.Drift('L', float(rng.uniform(0.5, 10))))
    els.append(at.RFCavity('CAV', 0.0, 1e6, 5e8, 100, 2.5e9))
    return at.Lattice(els, energy=2.5e9, periodicity=1)


def total(ring):
    return float(sum(getattr(e, 'Length', 0.0) for e in ring))


def drifts(ring):
    return [i for i, e in enumerate(ring) if e.PassMethod == 'DriftPass']


def sequence(ctx):
    rng = ctx.rng
    ring = any_ring(rng)
    start = np.array([getattr(e, 'Length', 0.0) for e in ring], dtype=float)
    c0 = total(ring)
    dr = drifts(ring)
    floor = c0 - start[dr].sum()      # length of everything which is not a drift
    steps = []
    for _ in range(int(rng.integers(1, 6))):
        before = [snap.element(e) for e in ring]
        lengths = np.array([getattr(e, 'Length', 0.0) for e in ring], dtype=float)
        c = total(ring)
        small = bool(rng.random() < 0.5)
        target = c * (1 + float(rng.choice([1, -1])) * float(10.0 ** rng.uniform(-8, -3))) if small else floor + (c - floor) * float(rng.uniform(0.05, 3))
        if rng.random() < 0.15:
            target = c
        mode = str(rng.choice(['abs', 'rel', 'default']))
        if mode == 'rel':
            out = scale_circumference(ring, target / c, 'rel')
        elif mode == 'abs':
            out = scale_circumference(ring, target, mode='abs')
        else:
            out = scale_circumference(ring, target)
        steps.append([mode, target / c])
        ctx.check(len(out) == len(before), 'number of elements changed')
        new = np.array([getattr(e, 'Length', 0.0) for e in out], dtype=float)
        ctx.close(new.sum(), target, f'circumference after scaling {c} by {steps[-1]}', rtol=1e-13, atol=1e-12)
        f = (target - floor) / (c - floor)
        ctx.close(new[dr], lengths[dr] * f, f'drift lengths after {steps[-1]}', rtol=1e-11, atol=1e-15)
        for i, e in enumerate(out):
            d = [x for x in snap.diff(before[i], snap.element(e)) if not (i in dr and 'Length' in x[0])]
            ctx.check(not d, f'element {i} ({e.FamName}, {e.PassMethod}) changed: {snap.describe(d)}')
        ring = out
    before = [snap.element(e) for e in ring]
    bad = str(rng.choice(['ABS', 'absolute', '', 'relative', 'add']))
    ctx.raises(ValueError, lambda: scale_circumference(ring, total(ring) * 1.5, bad), f'mode {bad!r}')
    ctx.check(not snap.diff(before, [snap.element(e) for e in ring]), 'rejected scaling changed the lattice')
    out = scale_circumference(ring, c0, 'abs')
    ctx.close([getattr(e, 'Length', 0.0) for e in out], start, 'lengths after scaling back', rtol=1e-10, atol=1e-14)
    ctx.note(elements=len(ring), drifts=len(dr), steps=steps)
    ctx.sig(len(ring), len(dr), steps)


def errors(ctx):
    """Circumference error of an error application; the design lattice keeps its length."""
    rng = ctx.rng
    sc = gen.make_ideal_sc(rng)
    gen.register_all(sc, rng, scale=float(rng.choice([0.0, 1.0])))
    c0 = total(sc.RING)
    ideal = snap.ring(sc.IDEALRING)
    width = float(10.0 ** rng.uniform(-7, -3))
    if rng.random() < 0.2:
        width = 0.0
    sc.SIG.Circumference = width
    ns = float(rng.uniform(0.5, 3))
    worst = 0.0
    for k in range(3):
        lengths = np.array([getattr(e, 'Length', 0.0) for e in sc.RING], dtype=float)
        sc.apply_errors(ns)
        new = np.array([getattr(e, 'Length', 0.0) for e in sc.RING], dtype=float)
        rel = new.sum() / lengths.sum() - 1
        worst = max(worst, abs(rel))
        ctx.check(abs(rel) <= width * ns * (1 + 1e-9) + 1e-15, f'circumference changed by {rel}, width {width}, cutoff {ns}')
        dr = [i for i, e in enumerate(sc.RING) if e.PassMethod == 'DriftPass']
        other = [i for i in range(len(new)) if i not in set(dr)]
        ctx.check(np.array_equal(new[other], lengths[other]), 'elements other than drifts changed their length')
        f = new[dr].sum() / lengths[dr].sum()
        ctx.close(new[dr], lengths[dr] * f, 'drifts scaled by one factor', rtol=1e-12)
        ctx.check(not snap.diff(ideal, snap.ring(sc.IDEALRING)), 'the design lattice changed')
        if width == 0:
            ctx.close(new, lengths, 'lengths without circumference error', rtol=1e-14)
    if width:
        ctx.check(worst > 0, 'no circumference error was applied')
    ctx.note(width=width, sigmas=ns, largest=worst)
    ctx.sig(width, ns)


SCENARIOS = dict(sequence=Scenario(sequence, 3000, 20000), errors=Scenario(errors, 160, 1000))
