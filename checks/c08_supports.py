"""C08: support geometry monitored at every element and at free locations against an independent rigid-beam model."""
import numpy as np
import at
from vlib import gen, snap
from vlib.common import Scenario, LogCapture
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.utils import sc_tools

PID = 'C08'
RULE = ('random lines with randomly nested, overlapping and end-crossing sections, plinths and girders, random end point displacements set '
        'by hand or drawn; the displacement of every element and of free locations, and what each magnet and monitor receives, are compared '
        'with an independent model of beams resting on beams. Distinct by layout; non-trivial when an element is displaced.')
ASSUMPTIONS = ['supports of one type do not overlap and have non-zero length',
               'free locations at which several elements meet, or next to a support boundary, are not judged']
TYPES = ('Section', 'Plinth', 'Girder')


def line(rng, n):
    elems = []
    for i in range(n):
        k = int(rng.integers(6))
        if k == 0:
            elems.append(at.Quadrupole(f'Q{i}', float(rng.uniform(0.1, 1)), 0.5, PassMethod='StrMPoleSymplectic4Pass',
                                       PolynomB=np.array([0., 0.5]), PolynomA=np.zeros(2)))
        elif k == 1:
            elems.append(at.Dipole(f'B{i}', float(rng.uniform(0.3, 1)), float(rng.uniform(0.02, 0.3)), 0.0, PassMethod='BndMPoleSymplectic4Pass',
                                   PolynomB=np.zeros(2), PolynomA=np.zeros(2)))
        elif k == 2:
            elems.append(at.Corrector(f'C{i}', 0.0, np.zeros(2), PassMethod='CorrectorPass', PolynomB=np.zeros(2), PolynomA=np.zeros(2),
                                      MaxOrder=1))
        elif k == 3:
            elems.append(at.Monitor(f'M{i}'))
        elif k == 4:
            elems.append(at.Marker(f'X{i}'))
        else:
            elems.append(at.Drift(f'D{i}', float(rng.uniform(0.02, 1.5 if rng.random() < 0.6 else 0.08))))
    elems += [at.Drift('L', float(rng.uniform(0.5, 2)))]
    cav = at.RFCavity('CAV', 0.0, 1e5, 3e8, 100, 2.5e9)
    return at.Lattice([cav] + elems + [at.Drift('tail', 30.0)], energy=2.5e9, periodicity=1)


def choose_supports(rng, ring, s):
    """{type: [(start, end)]}: disjoint per type, non-zero length, sometimes crossing the end of the lattice."""
    n = len(ring)
    out = {}
    for t in TYPES:
        if rng.random() < 0.15:
            continue
        k = int(rng.integers(1, 5))
        cuts = np.sort(rng.choice(np.arange(1, n), min(2 * k, n - 1) // 2 * 2, replace=False))
        if rng.random() < 0.3:
            cuts = np.roll(cuts, 1)
        pairs = [(int(a), int(b)) for a, b in cuts.reshape(-1, 2)]
        pairs = [(a, b) for a, b in pairs if ((s[b] - s[a]) % s[-1]) > 1e-9]
        if pairs:
            out[t] = pairs
    return out


def covers(pair, i):
    a, b = pair
    return a <= i <= b if a <= b else (i >= a or i <= b)


class Beams:
    """Displacement of the lattice point `index` resting on supports up to a level; level -1 is the floor."""

    def __init__(self, sup, off, roll, s):
        self.sup, self.off, self.roll, self.s, self.total = sup, off, roll, s, s[-1]

    def at(self, i, level=2):
        if level < 0:
            return np.zeros(3)
        t = TYPES[level]
        for pair in self.sup.get(t, []):
            if covers(pair, i):
                a, b = pair
                d0 = self.at(a, level - 1) + self.off[t, a]
                d1 = self.at(b, level - 1) + self.off[t, b]
                x = (self.s[i] - self.s[a] if i > a else (self.s[i] - self.s[a]) % self.total) / ((self.s[b] - self.s[a]) % self.total)
                if i == b:
                    x = 1.0
                return d0 + x * (d1 - d0)
        return self.at(i, level - 1)

    def angles(self, i):
        out = np.zeros(3)
        for t in TYPES:
            for a, b in self.sup.get(t, []):
                if covers((a, b), i):
                    out[0] += self.roll[t, a]
                    length = (self.s[b] - self.s[a]) % self.total
                    slope = (self.at(b) - self.at(a)) / length
                    out[1], out[2] = -slope[1], slope[0]    # positive rotation around the horizontal axis lowers the downstream end
        return out


def build(ctx, sigmas=lambda t: {}):
    rng = ctx.rng
    ring = line(rng, int(rng.integers(12, 40)))
    s = ring.get_s_pos(range(len(ring) + 1))
    sup = choose_supports(rng, ring, s)
    if not sup:
        return None
    sc = SimulatedCommissioning(ring)
    for t, pairs in sup.items():
        order = rng.permutation(len(pairs))
        sc.register_supports(np.array(pairs, dtype=int)[order].T, t, **sigmas(t))
    mags = [i for i, e in enumerate(ring) if isinstance(e, (at.Quadrupole, at.Dipole, at.Corrector)) and rng.random() < 0.8]
    bpms = [i for i, e in enumerate(ring) if isinstance(e, at.Monitor) and rng.random() < 0.8]
    if mags:
        sc.register_magnets(np.array(mags))
    if bpms:
        sc.register_bpms(np.array(bpms))
    ctx.note(elements=len(ring), supports=sup, magnets=len(mags), monitors=len(bpms))
    return ring, sc, sup, s, mags, bpms


def set_by_hand(ctx, sc, sup):
    off, roll = {}, {}
    plain, level, flat = ctx.rng.random(3) < 0.25
    for t, pairs in sup.items():
        for a, b in pairs:
            off[t, a], off[t, b] = ctx.rng.normal(0, 1e-3, 3), ctx.rng.normal(0, 1e-3, 3)
            roll[t, a] = float(ctx.rng.normal(0, 1e-3))
            if plain or ctx.rng.random() < 0.1:     # not rolled
                roll[t, a] = 0.0
            if level or ctx.rng.random() < 0.1:     # not tilted
                off[t, b] = off[t, a].copy()
            if flat or ctx.rng.random() < 0.1:      # at its place
                off[t, a], off[t, b] = np.zeros(3), np.zeros(3)
            setattr(sc.RING[a], t + 'Offset', off[t, a].copy())
            setattr(sc.RING[b], t + 'Offset', off[t, b].copy())
            setattr(sc.RING[a], t + 'Roll', np.array([roll[t, a], *ctx.rng.normal(0, 1e-3, 2)]))
            setattr(sc.RING[b], t + 'Roll', ctx.rng.normal(0, 1e-3, 3))
    return off, roll


def geometry(ctx):
    rng = ctx.rng
    b = build(ctx)
    if b is None:
        return
    ring, sc, sup, s, mags, bpms = b
    for rep in range(3):
        off, roll = set_by_hand(ctx, sc, sup)
        m = Beams(sup, off, roll, s)
        before = snap.machine(sc)
        o, r = sc.support_offset_and_roll(s)
        d = snap.diff(before, snap.machine(sc))
        ctx.check(not d, f'querying the geometry changed the machine: {snap.describe(d)}')
        ctx.check(np.shape(o) == (3, len(s)) and np.shape(r) == (3, len(s)), f'shapes {np.shape(o)} {np.shape(r)}')
        want = np.array([m.at(i) for i in range(len(ring) + 1)])
        ang = np.array([m.angles(i) for i in range(len(ring) + 1)])
        ctx.close(o.T, want, f'displacement along the lattice ({sup})', rtol=1e-9, atol=1e-15)
        ctx.close(r.T, ang, f'angles along the lattice ({sup})', rtol=1e-9, atol=1e-15)
        # free locations: strictly between two neighbouring elements which rest on the same supports
        loc, wo, wr = [], [], []
        for i in range(1, len(ring)):
            if s[i + 1] - s[i] < 1e-6 or (i + 2 <= len(ring) and s[i + 1] == s[i + 2]) or s[i] == s[i - 1]:
                continue
            same = all([k for k, p in enumerate(sup.get(t, [])) if covers(p, i)] == [k for k, p in enumerate(sup.get(t, [])) if covers(p, i + 1)]
                       for t in TYPES)
            if not same:
                continue
            x = float(rng.uniform(0.1, 0.9))
            loc.append(s[i] + x * (s[i + 1] - s[i]))
            wo.append((1 - x) * want[i] + x * want[i + 1])
            wr.append(ang[i])
        if len(loc):
            q = rng.permutation(len(loc))
            o, r = sc.support_offset_and_roll(np.array(loc)[q])
            ctx.close(o.T, np.array(wo)[q], 'displacement of free locations', rtol=1e-8, atol=1e-14)
            ctx.close(r.T, np.array(wr)[q], 'angles of free locations', rtol=1e-8, atol=1e-14)
            ctx.event('free locations', len(loc))
        # distribution
        which = [dict(), dict(offset_bpms=False), dict(offset_magnets=False), dict(offset_bpms=False, offset_magnets=False)][int(rng.integers(4))]
        before = snap.machine(sc)
        with LogCapture() as log:
            sc.update_supports(**which)
        do_m, do_b = which.get('offset_magnets', True), which.get('offset_bpms', True)
        text = ' '.join(log.messages('WARNING'))
        ctx.check(('magnets' in text) == (do_m and not mags) and ('BPMs' in text) == (do_b and not bpms), f'warnings: {text!r}')
        exp = {}
        if do_m:
            for i in mags:
                exp[i, 'SupportOffset'], exp[i, 'SupportRoll'] = want[i], ang[i]
        if do_b:
            for i in bpms:
                exp[i, 'SupportOffset'], exp[i, 'SupportRoll'] = want[i][:2], ang[i][0]
        for (i, f), v in exp.items():
            ctx.close(getattr(sc.RING[i], f), v, f'{f} of element {i} ({ring[i].FamName}) for {sup}', rtol=1e-9, atol=1e-15)
        trafo = ('T1', 'T2', 'R1', 'R2')
        for p, x, y in snap.diff(before, snap.machine(sc)):
            ok = p[0] == 'RING' and p[1] == 'elements' and ((p[2], p[3]) in exp or (do_m and p[2] in mags and p[3] in trafo))
            ctx.check(ok, f'update changed {p}: {x} -> {y}')
        if do_m:
            for i in mags:
                e = sc.RING[i].deepcopy()
                e = sc_tools.update_transformation(e)
                for t in trafo:
                    ctx.close(getattr(sc.RING[i], t), getattr(e, t), f'{t} of magnet {i} follows its displacement', rtol=1e-12, atol=1e-16)
        ctx.event('elements on supports', int(np.any(want != 0, axis=1).sum()))
    moved = int(np.any(want != 0, axis=1).sum())
    if moved:
        ctx.sig(sup, moved, rep)


def drawn(ctx):
    """Geometry after random errors on a ring, including own magnet offsets and repeated application."""
    rng = ctx.rng
    sc, o = gen.make_sc(rng, dict(n_cells=6, kf=0.7, kd=0.77, split_bends=bool(rng.random() < 0.3)), apply=False, master=True, rf=False)
    if rng.random() < 0.5:    # explicit end point uncertainties and pitch
        sc.register_supports(o['Girder'], 'Girder', Offset=rng.uniform(0, 1e-4, (2, 3)), Roll=np.array([1e-4, 0, 0]))
    else:
        sc.register_supports(o['Girder'], 'Girder', Roll=np.array([1e-4, 1e-4, 1e-4]))
    s = sc.RING.get_s_pos(range(len(sc.RING) + 1))
    for _ in range(2):
        sc.apply_errors()
        sup = {t: [(int(a), int(b)) for a, b in o[t].T] for t in TYPES}
        off = {(t, i): np.array(getattr(sc.RING[i], t + 'Offset')) for t in TYPES for p in sup[t] for i in p}
        roll = {(t, p[0]): float(getattr(sc.RING[p[0]], t + 'Roll')[0]) for t in TYPES for p in sup[t]}
        m = Beams(sup, off, roll, s)
        for i in sc.ORD.Magnet:
            ctx.close(sc.RING[i].SupportOffset, m.at(i), f'displacement of magnet {i}', rtol=1e-9, atol=1e-15)
            ctx.close(sc.RING[i].SupportRoll, m.angles(i), f'angles of magnet {i}', rtol=1e-9, atol=1e-15)
            for c in getattr(sc.RING[i], 'MasterOf', []):
                for t in ('T1', 'T2', 'R1', 'R2'):
                    ctx.close(getattr(sc.RING[c], t), getattr(sc.RING[i], t), f'{t} of part {c}', rtol=0, atol=0)
        for i in sc.ORD.BPM:
            ctx.close(sc.RING[i].SupportOffset, m.at(i)[:2], f'displacement of monitor {i}', rtol=1e-9, atol=1e-15)
            ctx.close(sc.RING[i].SupportRoll, m.angles(i)[0], f'roll of monitor {i}', rtol=1e-9, atol=1e-15)
        ctx.event('supports drawn', sum(len(v) for v in sup.values()))
    ctx.note(supports={t: len(v) for t, v in sup.items()})
    ctx.sig(ctx.idx)


def drawn_lines(ctx):
    """Errors drawn for nested and end-crossing supports: the drawn end points describe straight beams with the drawn angles."""
    rng = ctx.rng
    mode = {t: int(rng.integers(4)) for t in TYPES}
    twist = {t: rng.random(3) < 0.6 for t in TYPES}

    def sigmas(t):
        if mode[t] == 0:      # end points drawn together, angles drawn
            return dict(Offset=rng.uniform(1e-5, 1e-3, 3), Roll=rng.uniform(1e-5, 1e-3, 3) * twist[t])
        if mode[t] == 1:      # end points drawn separately: only the roll may be drawn
            return dict(Offset=rng.uniform(1e-5, 1e-3, (2, 3)), Roll=np.array([1e-3, 0., 0.]))
        if mode[t] == 2:      # angles only
            return dict(Roll=rng.uniform(1e-5, 1e-3, 3) * twist[t])
        return dict(Offset=rng.uniform(1e-5, 1e-3, 3))
    b = build(ctx, sigmas)
    if b is None:
        return
    ring, sc, sup, s, mags, bpms = b
    for _ in range(2):
        with LogCapture():
            sc.apply_errors()
        off = {(t, i): np.array(getattr(sc.RING[i], t + 'Offset')) for t in sup for p in sup[t] for i in p}
        roll = {}
        for t in sup:
            for a, e in sup[t]:
                r = np.array(getattr(sc.RING[a], t + 'Roll'))
                roll[t, a] = float(r[0])
                length = (s[e] - s[a]) % s[-1]
                slope = (off[t, e] - off[t, a]) / length
                ctx.close(r[1:], [-slope[1], slope[0]], f'{t} {a, e}: pitch and yaw follow from the end points', rtol=1e-9, atol=1e-15)
                sig = sigmas_of(sc, a)
                for k, plane in ((1, 1), (2, 0)):
                    drawn_angle = t + 'Roll' in sig and np.atleast_1d(sig[t + 'Roll'])[k] != 0
                    ctx.check(mode[t] == 1 or drawn_angle or r[k] == 0, f'{t} {a, e}: angle {k} without uncertainty is {r[k]}')
                    ctx.check(not drawn_angle or r[k] != 0, f'{t} {a, e}: angle {k} is not drawn')
                    if drawn_angle:
                        ctx.check(abs(r[k]) <= 2 * sig[t + 'Roll'][k] * (1 + 1e-9), f'{t} {a, e}: angle {k} is {r[k]}, drawn with {sig[t + "Roll"]}')
        m = Beams(sup, off, roll, s)
        for i in mags:
            ctx.close(sc.RING[i].SupportOffset, m.at(i), f'displacement of magnet {i}', rtol=1e-9, atol=1e-15)
            ctx.close(sc.RING[i].SupportRoll, m.angles(i), f'angles of magnet {i}', rtol=1e-9, atol=1e-15)
        for i in bpms:
            ctx.close(sc.RING[i].SupportOffset, m.at(i)[:2], f'displacement of monitor {i}', rtol=1e-9, atol=1e-15)
            ctx.close(sc.RING[i].SupportRoll, m.angles(i)[0], f'roll of monitor {i}', rtol=1e-9, atol=1e-15)
    ctx.event('crossing supports', sum(a > e for p in sup.values() for a, e in p))
    ctx.sig(sup, tuple(mode.items()))


def sigmas_of(sc, a):
    """{field: sigma} registered for a support start, without the cut-offs."""
    return {f: np.asarray(v[0] if isinstance(v, (list, tuple)) else v) for f, v in sc.SIG.Support[a].items()} if a in sc.SIG.Support else {}


SCENARIOS = dict(geometry=Scenario(geometry, 900, 3000), drawn_lines=Scenario(drawn_lines, 500, 2500), drawn=Scenario(drawn, 96, 200))
