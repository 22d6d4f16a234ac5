"""C09: entrance and exit transformations monitored against exact three-dimensional ray geometry and tracking in the displaced frame."""
import numpy as np
import at
from vlib import gen, snap
from vlib.common import Scenario
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.utils import sc_tools

PID = 'C09'
RULE = ('random straight and bent magnets with random own and support misalignments up to 0.1 rad; the affine maps which tracking applies are '
        'compared with value and Jacobian of an exact ray transformation, tracked particles with a calculation in the displaced frame, whole '
        'girders with tracking in the girder frame, and results of long misalignment histories with fresh elements. Distinct by magnet and '
        'misalignment.')
ASSUMPTIONS = ['magnets are displaced around their entrance', 'second order terms in the ray coordinates are not judged']


def rot(ax, ay, az):
    """Axes of the displaced frame: roll about z first, then yaw about y, then pitch about x (fixed axes)."""
    cx, sx, cy, sy, cz, sz = np.cos(ax), np.sin(ax), np.cos(ay), np.sin(ay), np.cos(az), np.sin(az)
    rx = np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])
    ry = np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]])
    rz = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]])
    return rx @ ry @ rz


def ray(z, origin, axes):
    """Coordinates z in one frame -> coordinates in the frame at origin with the given axes (columns), drifting to its plane."""
    x, px, y, py, d, ct = z
    p, u = np.array([x, y, 0.0]), np.array([px, py, np.sqrt((1 + d) ** 2 - px ** 2 - py ** 2)])
    p, u = axes.T @ (p - origin), axes.T @ u
    t = -p[2] / u[2]
    p = p + t * u
    return np.array([p[0], u[0], p[1], u[1], d, ct + t * (1 + d)])


def frames(length, theta, d, r):
    """(entrance origin and axes of the magnet seen from the nominal entrance, nominal exit seen from the magnet exit)"""
    op = np.array([length * (np.cos(theta) - 1) / theta, 0, length * np.sin(theta) / theta]) if theta else np.array([0, 0, length])
    rb = rot(0, -theta, 0)
    exit_origin = d + r @ op                      # magnet exit in the lab
    exit_axes = r @ rb
    return (d, r), (exit_axes.T @ (op - exit_origin), exit_axes.T @ rb)


def taylor(f):
    z0 = f(np.zeros(6))
    jac = np.zeros((6, 6))
    h = 1e-5
    for k in range(6):
        e = np.zeros(6)
        e[k] = h
        jac[:, k] = (f(e) - f(-e)) / (2 * h)
    return z0, jac


def magnet(rng):
    k = int(rng.integers(5))
    length = float(rng.uniform(0.1, 2))
    n = int(rng.integers(2, 4))
    pb = np.zeros(n)
    pb[1] = float(rng.uniform(-1, 1))
    if n > 2:
        pb[2] = float(rng.uniform(-2, 2))
    if k == 0:
        return at.Dipole('B', length, float(rng.choice([-1, 1]) * rng.uniform(0.01, 0.6)), pb[1], PassMethod='BndMPoleSymplectic4Pass',
                         PolynomB=pb, PolynomA=np.zeros(n), NumIntSteps=10)
    if k == 1:
        a = float(rng.uniform(0.01, 0.3))
        return at.Dipole('BE', length, a, 0.0, PassMethod='BndMPoleSymplectic4Pass', PolynomB=np.zeros(2), PolynomA=np.zeros(2),
                         EntranceAngle=a / 2, ExitAngle=a / 2, NumIntSteps=10)
    if k == 2:
        return at.Corrector('C', 0.0, np.zeros(2), PassMethod='CorrectorPass', PolynomB=np.zeros(2), PolynomA=np.zeros(2), MaxOrder=1)
    return at.Quadrupole('Q', length, pb[1], PassMethod='StrMPoleSymplectic4Pass', PolynomB=pb, PolynomA=np.zeros(n), NumIntSteps=10)


def machine(rng, n=1, parts=False):
    elems = [at.RFCavity('CAV', 0.0, 1e5, 1e8, 100, 2.5e9)]
    idx = []
    for _ in range(n):
        elems.append(at.Drift('D', float(rng.uniform(0.1, 1))))
        idx.append(len(elems))
        elems.append(magnet(rng))
    elems += [at.Monitor('BPM'), at.Drift('L', 20.0)]
    ring = at.Lattice(elems, energy=2.5e9, periodicity=1)
    sc = SimulatedCommissioning(ring)
    sc.register_magnets(np.array(idx[:-1] if parts and n > 2 else idx))
    sc.register_bpms(np.array([len(elems) - 2]))
    return ring, sc, idx


def misalign(rng, kind):
    size = float(rng.choice([1e-4, 1e-3, 1e-2]))
    ang = float(rng.choice([1e-4, 1e-2, 0.1]))
    d, r = np.zeros(3), np.zeros(3)
    if kind in ('offset', 'both'):
        d = rng.normal(0, size, 3) * (rng.random(3) < 0.8)
    if kind in ('roll', 'both'):
        r = np.clip(rng.normal(0, ang, 3), -0.2, 0.2) * (rng.random(3) < 0.7)
    return d, r


def put(e, d, r, share):
    e.MagnetOffset, e.MagnetRoll = d * (1 - share), r * (1 - share)


def judge_affine(ctx, e, d, r, what):
    """r = (roll, pitch, yaw) as registered."""
    theta, length = getattr(e, 'BendingAngle', 0.0), e.Length
    (o1, a1), (o2, a2) = frames(length, theta, d, rot(r[1], r[2], r[0]))
    for name, o, a, tr, mat in (('entrance', o1, a1, e.R1 @ e.T1, e.R1), ('exit', o2, a2, e.T2, e.R2)):
        z0, jac = taylor(lambda z: ray(z, o, a))
        ctx.close(tr, z0, f'{what}: {name} shift', rtol=1e-9, atol=1e-13)
        ctx.close(mat, jac, f'{what}: {name} matrix', rtol=1e-7, atol=2e-9)
    ctx.event('transformations compared')


def single(ctx):
    rng = ctx.rng
    ring, sc, idx = machine(rng)
    i = idx[0]
    design = ring[i].deepcopy()
    hist = []
    for step in range(int(rng.integers(1, 5))):
        kind = str(rng.choice(['none', 'offset', 'roll', 'both', 'both']))
        d, r = misalign(rng, kind)
        if kind == 'offset' and rng.random() < 0.6:
            d[2] = 0.0
        share = float(rng.choice([0, 0, 0.3]))
        e = sc.RING[i]
        put(e, d, r, share)
        if share:    # part of the misalignment comes from supports
            e.SupportOffset, e.SupportRoll = d * share, r * share
            sc.RING[i] = sc_tools.update_transformation(e)
        else:
            sc.update_supports()
        hist.append(kind)
        e = sc.RING[i]
        ctx.close(e.SupportOffset + e.MagnetOffset, d, 'offset changed by the update', rtol=1e-12)
        judge_affine(ctx, e, d, r, f'{e.FamName} after {hist}, offset {d}, angles {r}')
        if kind == 'none':
            for t in ('T1', 'T2'):
                ctx.close(getattr(e, t), np.zeros(6), f'{t} without misalignment', rtol=0, atol=1e-15)
            for t in ('R1', 'R2'):
                ctx.close(getattr(e, t), np.eye(6), f'{t} without misalignment', rtol=0, atol=1e-15)
        if share:
            e.SupportOffset, e.SupportRoll = np.zeros(3), np.zeros(3)
        # tracking
        nom = design.deepcopy()
        one = at.Lattice([e.deepcopy()], energy=2.5e9, periodicity=1)
        ref = at.Lattice([nom], energy=2.5e9, periodicity=1)
        small = kind != 'none' and max(np.max(np.abs(d)), np.max(np.abs(r))) < 5e-3
        z = rng.normal(0, 1e-5, 6)
        z[4] *= 0.1
        (o1, a1), (o2, a2) = frames(nom.Length, getattr(nom, 'BendingAngle', 0.0), d, rot(r[1], r[2], r[0]))
        zin = ray(z, o1, a1)
        want = ray(at.lattice_track(ref, zin.reshape(6, 1).copy())[0].ravel(), o2, a2)
        got = at.lattice_track(one, z.reshape(6, 1).copy())[0].ravel()
        if kind == 'offset' and d[2] == 0 and (d[0] == 0 or not getattr(nom, 'BendingAngle', 0.0)):
            ctx.close(got, want, f'tracking through a transversely shifted {e.FamName}', rtol=1e-9, atol=1e-15)
        elif small or kind == 'none':
            scale = max(1e-5, np.max(np.abs(d)), np.max(np.abs(r)))
            ctx.close(got, want, f'tracking through a misaligned {e.FamName} ({d}, {r})', rtol=0, atol=1e-9 + 0.05 * scale ** 2)
        ctx.event('particles compared')
    for p, a, b in snap.diff(snap.ring(ring)['elements'], snap.ring(sc.RING)['elements']):
        ctx.check(p[0] == i and p[1] in ('T1', 'T2', 'R1', 'R2') or a == '<absent>', f'misaligning changed {p}: {a} -> {b}')
    ctx.note(magnet=design.FamName, history=hist)
    ctx.sig(design.FamName, hist, ctx.idx)


def history(ctx):
    """The same final misalignment after different histories; several magnets; split magnets."""
    rng = ctx.rng
    ring, sc, idx = machine(rng, int(rng.integers(2, 5)), True)
    fresh = SimulatedCommissioning(ring)
    masters = {idx[0]: [idx[-1]]} if len(idx) > 2 else {}
    own = [i for i in idx if i not in sum(masters.values(), [])]
    fresh.register_magnets(np.array(own))
    fresh.register_bpms(np.array([len(ring) - 2]))
    for m in (sc, fresh):
        for a, ch in masters.items():
            m.register_magnets(np.array([a]), MasterOf=np.array(ch).reshape(-1, 1))
    for _ in range(int(rng.integers(2, 6))):
        for i in own:
            d, r = misalign(rng, 'both')
            put(sc.RING[i], d, r, 0)
        sc.update_supports(offset_bpms=bool(rng.random() < 0.5))
    before = snap.ring(sc.RING)
    sc.update_supports()
    dd = snap.diff(before, snap.ring(sc.RING))
    ctx.check(not dd, f'repeating the update changed {snap.describe(dd)}')
    for i in own:
        put(fresh.RING[i], sc.RING[i].MagnetOffset, sc.RING[i].MagnetRoll, 0)
    fresh.update_supports()
    dd = snap.diff(snap.ring(fresh.RING), snap.ring(sc.RING))
    ctx.check(not dd, f'transformations depend on earlier misalignments: {snap.describe(dd)}')
    for a, ch in masters.items():
        for c in ch:
            for t in ('T1', 'T2', 'R1', 'R2'):
                ctx.close(getattr(sc.RING[c], t), getattr(sc.RING[a], t), f'{t} of the second part', rtol=0, atol=0)
    for i in own:
        judge_affine(ctx, sc.RING[i], sc.RING[i].MagnetOffset, sc.RING[i].MagnetRoll, f'magnet {i}')
    ctx.note(magnets=len(idx), split=bool(masters))
    ctx.sig(ctx.idx, len(idx))


def girder(ctx):
    """Everything on a displaced, rolled, pitched and yawed straight girder behaves like the undisturbed line in the girder frame."""
    rng = ctx.rng
    elems = [at.RFCavity('CAV', 0.0, 1e5, 1e8, 100, 2.5e9), at.Drift('D', 0.3), at.Marker('GS')]
    mags = []
    for _ in range(int(rng.integers(1, 5))):
        elems.append(at.Drift('D', float(rng.uniform(0.05, 0.5))))
        mags.append(len(elems))
        n = 3
        elems.append(at.Quadrupole('Q', float(rng.uniform(0.1, 0.6)), 1.0, PassMethod='StrMPoleSymplectic4Pass', NumIntSteps=10,
                                   PolynomB=np.array([0.0, float(rng.choice([-1, 1]) * rng.uniform(0.3, 1.5)), 0.0]), PolynomA=np.zeros(n)))
    elems += [at.Drift('D', 0.2), at.Marker('GE'), at.Drift('L', 20.0)]
    ge = len(elems) - 2
    ring = at.Lattice(elems, energy=2.5e9, periodicity=1)
    sc = SimulatedCommissioning(ring)
    sc.register_magnets(np.array(mags))
    sc.register_supports(np.array([[2], [ge]]), 'Girder', Offset=np.array([[1e-4, 1e-4, 0], [1e-4, 1e-4, 0]]), Roll=np.array([1e-3, 0, 0]))
    explicit = bool(rng.random() < 0.4)
    if explicit:
        sc = SimulatedCommissioning(ring)
        sc.register_magnets(np.array(mags))
        sc.register_supports(np.array([[2], [ge]]), 'Girder', Offset=np.array([1e-4, 1e-4, 0]), Roll=np.array([1e-3, 1e-4, 1e-4]))
    sc.apply_errors()
    s = ring.get_s_pos(range(len(ring)))
    o0, o1 = sc.RING[2].GirderOffset, sc.RING[ge].GirderOffset
    az = sc.RING[2].GirderRoll[0]
    slope = (o1 - o0) / (s[ge] - s[2])
    if explicit:   # angles as registered: pitch and yaw are right handed rotations about x and y
        ctx.close([-slope[1], slope[0]], sc.RING[2].GirderRoll[1:], 'girder angles', rtol=1e-9)
    z = rng.normal(0, 1e-4, 6) * np.array([1, 1, 1, 1, 0, 0])
    line = at.Lattice(list(sc.RING[3:ge]), energy=2.5e9, periodicity=1)
    ideal = at.Lattice(list(ring[3:ge]), energy=2.5e9, periodicity=1)
    got = at.lattice_track(line, z.reshape(6, 1).copy())[0].ravel()
    c, sn = np.cos(az), np.sin(az)

    def into(v, o, sign):
        w = v.copy()
        if sign > 0:
            w[:4] -= np.array([o[0], slope[0], o[1], slope[1]])
        rr = np.array([[c, 0, sn, 0], [0, c, 0, sn], [-sn, 0, c, 0], [0, -sn, 0, c]])
        w[:4] = (rr if sign > 0 else rr.T) @ w[:4]
        if sign < 0:
            w[:4] += np.array([o[0], slope[0], o[1], slope[1]])
        return w
    want = into(at.lattice_track(ideal, into(z, o0, 1).reshape(6, 1).copy())[0].ravel(), o1, -1)
    flat = at.lattice_track(ideal, z.reshape(6, 1).copy())[0].ravel()
    ctx.close(got[:4], want[:4], f'tracking through a girder with ends {o0}, {o1}, roll {az}', rtol=0, atol=1e-6)
    ctx.note(magnets=len(mags), effect=float(np.max(np.abs(got - flat)[:4])), explicit=explicit)
    if np.max(np.abs(got - flat)[:4]) > 2e-5:
        ctx.sig(ctx.idx)
    ctx.event('girders tracked')


SCENARIOS = dict(single=Scenario(single, 1800, 6000), history=Scenario(history, 240, 800), girder=Scenario(girder, 600, 2000))
