"""C16: model responses, dispersion, model rings and orbits at magnets compared with an independent construction and tracking in AT."""
import numpy as np
import at
from vlib import gen, snap
from vlib.common import Scenario, LogCapture
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.lattice_properties.magnet_orbit import SCgetCOD
from pySC.lattice_properties.response_model import SCgetModelRM, SCgetModelDispersion, SCgetModelRING

PID = 'C16'
RULE = ('random machines with errors and changed setpoints, corrector elements and correctors in magnets, split magnets, several cavities, '
        'apertures; random modes, turns, kicks, injection vectors and subsets; every column is recomputed on separately built '
        'lattices tracked with AT, model rings are compared attribute by attribute with an independent model. Distinct by settings; '
        'non-trivial when a matrix, ring or orbit was compared.')
ASSUMPTIONS = ['monitors are requested in lattice order']


def machine(ctx, **kw):
    rng = ctx.rng
    ring_kw = dict(corr_elements=bool(rng.random() < 0.5), split_bends=bool(rng.random() < 0.4))
    ring_kw.update(kw.pop('ring_kw', {}))
    sc, o = gen.make_sc(rng, ring_kw, scale=float(rng.choice([0.3, 1.0])), master=bool(rng.random() < 0.6), **kw)
    for _ in range(int(rng.integers(1, 6))):
        gen.random_op(sc, o, rng)[1]()
    if len(o['benda']) and rng.random() < 0.7:
        sc.set_magnet_setpoints(o['benda'], 0.01 * rng.normal(size=len(o['benda'])), False, 1, 'abs')
    return sc, o


def fresh(ring):
    r = at.Lattice([e.deepcopy() for e in ring], energy=ring.energy, periodicity=1)
    return r


def model(sc, aperture=False):
    """The documented model: design lattice with the present setpoints, without dipole corrector settings."""
    r = fresh(sc.IDEALRING)
    for i in sc.ORD.Magnet:
        for k in [int(i)] + [int(c) for c in getattr(sc.RING[i], 'MasterOf', [])]:
            a, b = np.array(sc.RING[i].SetPointA, dtype=float), np.array(sc.RING[i].SetPointB, dtype=float)
            a[0] = b[0] = 0.0
            r[k].PolynomA, r[k].PolynomB = a, b.copy()
            r[k].MaxOrder = len(b) - 1
    for i in sc.ORD.RF:
        for f in ('Voltage', 'Frequency', 'TimeLag'):
            setattr(r[i], f, getattr(sc.RING[i], f + 'SetPoint'))
    if aperture:
        for i, e in enumerate(sc.RING):
            for f in ('EApertures', 'RApertures'):
                if hasattr(e, f):
                    setattr(r[i], f, np.array(getattr(e, f)))
    return r


def kicked(ring, i, plane, kick):
    r = fresh(ring)
    e = r[i]
    if e.PassMethod == 'CorrectorPass':
        k = np.array(e.KickAngle, dtype=float)
        k[plane] += kick
        e.KickAngle = k
    elif plane == 0:
        p = np.array(e.PolynomB, dtype=float)
        p[0] -= kick / e.Length
        e.PolynomB = p
    else:
        p = np.array(e.PolynomA, dtype=float)
        p[0] += kick / e.Length
        e.PolynomA = p
    return r


def positions(ring, mode, z0, turns, bpms):
    if mode == 'ORB':
        orb = at.find_orbit6(ring, bpms)[1]
        return np.concatenate((orb[:, 0], orb[:, 2]))
    out = np.empty((2, turns, len(bpms)))
    z = np.array(z0, dtype=float).reshape(6, 1)
    t = at.lattice_track(ring, z.copy(), nturns=turns, refpts=np.array(bpms), in_place=False)[0]
    for k in range(turns):
        out[0, k], out[1, k] = t[0, 0, :, k], t[2, 0, :, k]
    return out.ravel()


def settings(ctx, sc):
    rng = ctx.rng
    mode = str(rng.choice(['TBT', 'ORB']))
    z0 = rng.normal(size=6) * np.array([3e-4, 3e-5, 3e-4, 3e-5, 1e-4, 1e-4]) if rng.random() < 0.6 else np.zeros(6)
    turns = int(rng.integers(1, 4))
    ideal = bool(rng.random() < 0.5)
    bpms = np.sort(rng.choice(sc.ORD.BPM, int(rng.integers(1, len(sc.ORD.BPM) + 1)), replace=False))
    kw = dict(trackMode=mode, useIdealRing=ideal)
    if mode == 'TBT' and rng.random() < 0.8 or rng.random() < 0.3:
        kw.update(Z0=z0, nTurns=turns)
    else:
        z0, turns = np.zeros(6), 1
    ctx.note(mode=mode, turns=turns, ideal=ideal, monitors=len(bpms))
    return mode, z0, turns, ideal, bpms, kw


def response(ctx):
    rng = ctx.rng
    sc, o = machine(ctx)
    straight = rng.random() < 0.6
    if not straight:  # a design with kicks
        for e in sc.IDEALRING:
            if e.PassMethod == 'CorrectorPass' and rng.random() < 0.5:
                e.KickAngle = rng.normal(0, 1e-5, 2)
                ctx.event('design kicks')
    mode, z0, turns, ideal, bpms, kw = settings(ctx, sc)
    cms = [rng.choice(sc.ORD.HCM, min(len(sc.ORD.HCM), int(rng.integers(1, 4))), replace=False),
           rng.choice(sc.ORD.VCM, min(len(sc.ORD.VCM), int(rng.integers(1, 4))), replace=False)]
    if rng.random() < 0.15:
        cms[int(rng.integers(2))] = np.array([], dtype=int)
    if rng.random() < 0.25 and len(o['bend']):
        cms[0] = np.append(cms[0], o['bend'][0])
    dk = 1e-5
    if rng.random() < 0.5:
        kw['dkick'] = dk = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -4))
    before = snap.machine(sc)
    base = fresh(sc.IDEALRING) if ideal else model(sc)
    ref = positions(base, mode, z0, turns, bpms)
    if np.any(np.isnan(ref)):
        ctx.raises(ValueError, lambda: SCgetModelRM(sc, bpms, cms, **kw), 'model without trajectory')
        ctx.sig('no beam', mode)
        return
    rm = SCgetModelRM(sc, bpms, cms, **kw)
    d = snap.diff(before, snap.machine(sc))
    ctx.check(not d, f'the machine was changed: {snap.describe(d)}')
    t = turns if mode == 'TBT' else 1
    ctx.check(rm.shape == (2 * len(bpms) * t, len(cms[0]) + len(cms[1])), f'shape {rm.shape}')
    scale = max(np.nanmax(np.abs(rm)), 1e-3)
    col = 0
    for plane in range(2):
        for cm in cms[plane]:
            want = (positions(kicked(base, int(cm), plane, dk), mode, z0, turns, bpms) - ref) / dk
            ctx.close(rm[:, col], want, f'{mode}, kick {dk} of element {cm} plane {plane}', rtol=1e-7, atol=1e-7 * scale + (2e-9 / abs(dk) if mode == 'ORB' else 1e-15 / abs(dk)))
            # sign and size: on the first turn the response is the one of a particle deflected by one radian
            ctx.event('columns')
            col += 1
    if mode == 'TBT' and turns == 1 and not np.any(z0) and straight:
        kick_transfer(ctx, base, rm, cms, bpms)
    ctx.sig(mode, turns, ideal, len(bpms), dk, ctx.idx)


def kick_transfer(ctx, ring, rm, cms, bpms):
    """A deflection by one radian at the middle of the corrector propagates with the linear optics."""
    s0 = 1e-7
    col = 0
    for plane in range(2):
        for cm in cms[plane]:
            e = ring[cm]
            for j, b in enumerate(bpms):
                v = rm[plane * len(bpms) + j, col]
                if b <= cm:
                    ctx.check(abs(v) < 1e-6, f'monitor {b} upstream of corrector {cm} responds with {v}')
                    continue
                if e.PassMethod != 'CorrectorPass':
                    half = e.deepcopy()
                    half.Length = e.Length / 2
                    if getattr(e, 'BendingAngle', 0):
                        half.BendingAngle = e.BendingAngle / 2
                        half.EntranceAngle = half.ExitAngle = 0.0
                    line = [half] + list(ring[cm + 1:b])
                else:
                    line = list(ring[cm + 1:b])
                z = np.zeros((6, 1))
                z[2 * plane + 1] = s0
                out = at.lattice_track(at.Lattice(line, energy=ring.energy, periodicity=1), z, refpts=np.array([len(line)]), in_place=False)[0] if line else z.reshape(6, 1, 1, 1)
                want = out[2 * plane, 0, 0, 0] / s0
                ctx.check(abs(v - want) < 0.05 * abs(want) + 0.1, f'response of monitor {b} to corrector {cm} plane {plane}: {v}, linear optics {want}')
            col += 1
    ctx.event('matrices compared with linear transport')


def rf(ctx):
    rng = ctx.rng
    n_cav = int(rng.choice([1, 2, 3]))
    sc, o = machine(ctx, ring_kw=dict(n_cav=n_cav))
    mode, z0, turns, ideal, bpms, kw = settings(ctx, sc)
    step = 1e3
    if rng.random() < 0.7:
        kw['rfStep'] = step = float(rng.choice([-1, 1]) * 10 ** rng.uniform(0.5, 2.5))
    before = snap.machine(sc)
    base = fresh(sc.IDEALRING) if ideal else model(sc)
    ref = positions(base, mode, z0, turns, bpms)
    if np.any(np.isnan(ref)):
        ctx.raises(ValueError, lambda: SCgetModelDispersion(sc, bpms, sc.ORD.RF, **kw), 'model without trajectory')
        return
    cavs = np.array(sc.ORD.RF)
    if mode == 'TBT' and n_cav > 1 and rng.random() < 0.5:
        cavs = rng.permutation(cavs)[:int(rng.integers(1, n_cav + 1))]
    eta = SCgetModelDispersion(sc, bpms, cavs, **kw)
    d = snap.diff(before, snap.machine(sc))
    ctx.check(not d, f'the machine was changed: {snap.describe(d)}')
    r = fresh(base)
    for i in cavs:
        r[i].Frequency = r[i].Frequency + step
    want = (positions(r, mode, z0, turns, bpms) - ref) / step
    ctx.close(eta, want, f'{mode} dispersion for {step} Hz', rtol=1e-6, atol=2e-9 / abs(step) if mode == 'ORB' else 1e-15)
    ctx.event('dispersions')
    ctx.event('dispersions with several cavities', len(cavs) > 1)
    ctx.sig(mode, turns, ideal, step, len(cavs))


def rings(ctx):
    rng = ctx.rng
    ring = gen.make_ring(rng, corr_elements=bool(rng.random() < 0.5), split_bends=bool(rng.random() < 0.5), cf_bends=bool(rng.random() < 0.3),
                         apertures=[0.02, 0.01] if rng.random() < 0.3 else None, long_poly=bool(rng.random() < 0.3))
    n_cav = int(rng.integers(1, 4))
    for k in range(n_cav - 1):
        pos = int(rng.integers(2, len(ring)))
        e = ring[0].deepcopy()
        e.FamName = 'RFother' if rng.random() < 0.5 else 'RFCav'
        ring.insert(pos, e)
    sc = SimulatedCommissioning(ring)
    o = gen.register_all(sc, rng, scale=float(rng.choice([0.3, 1.0])), master=bool(rng.random() < 0.6), rf=bool(rng.random() < 0.7), bpm=bool(rng.random() < 0.9))
    sc.apply_errors()
    for _ in range(int(rng.integers(0, 6))):
        gen.random_op(sc, o, rng)[1]()
    if len(o['benda']) and rng.random() < 0.7:
        sc.set_magnet_setpoints(o['benda'], 0.01 * rng.normal(size=len(o['benda'])), False, 1, 'abs')
    sc.set_cavity_setpoints(sc.ORD.RF, float(rng.uniform(0.9, 1.1)), str(rng.choice(['Voltage', 'TimeLag'])), 'rel')
    for r in (sc.RING, sc.IDEALRING):
        for i in rng.choice(len(ring), 6):
            if not isinstance(r[int(i)], at.RFCavity):
                if rng.random() < 0.5:
                    r[int(i)].EApertures = rng.uniform(0.01, 0.02, 2)
                else:
                    r[int(i)].RApertures = np.array([-0.02, 0.02, -0.01, 0.01]) * rng.uniform(0.5, 1)
    aper = bool(rng.random() < 0.5)
    before = snap.machine(sc)
    got = SCgetModelRING(sc, includeAperture=aper)
    d = snap.diff(before, snap.machine(sc))
    ctx.check(not d, f'the machine was changed: {snap.describe(d)}')
    want = model(sc, aper)
    d = [x for x in snap.diff(snap.ring(want)['elements'], snap.ring(got)['elements']) if x[0][-1] != 'MaxOrder']  # judged by tracking
    ctx.check(not d, f'model ring (apertures {aper}): {snap.describe(d)}')
    ctx.check(got.energy == sc.IDEALRING.energy, 'energy')
    z = rng.normal(size=(6, 1)) * 1e-4
    a = at.lattice_track(got, z.copy(), refpts=np.arange(len(got) + 1), in_place=False)[0]
    b = at.lattice_track(want, z.copy(), refpts=np.arange(len(got) + 1), in_place=False)[0]
    ctx.close(a, b, 'tracking through the model ring', rtol=1e-12, atol=1e-18)
    ctx.note(cavities=n_cav, registered=len(sc.ORD.RF), apertures=aper, magnets=len(sc.ORD.Magnet))
    ctx.sig(ctx.idx)


def orbit(ctx):
    rng = ctx.rng
    sc, o = machine(ctx)
    rolled = rng.random() < 0.5
    if not rolled:  # pure displacements
        for i in sc.ORD.Magnet:
            sc.RING[i].MagnetRoll = np.zeros(3)
        for t in ('Girder', 'Plinth', 'Section'):
            for i in np.unique(sc.ORD[t]):
                setattr(sc.RING[i], t + 'Roll', np.zeros(3))
                e = getattr(sc.RING[i], t + 'Offset')
                setattr(sc.RING[i], t + 'Offset', np.array([e[0], e[1], 0.0]) * 0)
        sc.update_supports()
    if rng.random() < 0.15:
        sc.set_magnet_setpoints(o['qf'], 2.5, False, 1, 'rel')
    ords = None if rng.random() < 0.4 else np.sort(rng.choice(sc.ORD.Magnet, int(rng.integers(1, len(sc.ORD.Magnet) + 1)), replace=False))
    used = sc.ORD.Magnet if ords is None else ords
    with LogCapture() as log:
        cod = SCgetCOD(sc, ords=ords)
    orb = at.find_orbit6(fresh(sc.RING), used)[1]
    if np.any(np.isnan(orb)):
        ctx.check(cod.shape == (2, len(used)) and np.all(np.isnan(cod)), 'no orbit must give NaN')
        ctx.check(log.messages('ERROR'), 'no orbit must be reported')
        ctx.event('without orbit')
    else:
        want = np.array([orb[:, 0], orb[:, 2]])
        for k, i in enumerate(used):
            e = sc.RING[i]
            off = (e.MagnetOffset + e.SupportOffset)[:2]
            ctx.close(cod[:, k], want[:, k] - np.asarray(e.T2)[[0, 2]], f'orbit in magnet {i}', rtol=1e-7, atol=3e-9)
            straight = not getattr(e, 'BendingAngle', 0)
            roll = np.max(np.abs(e.MagnetRoll + e.SupportRoll))
            if straight:
                ctx.close(cod[:, k], want[:, k] - off, f'orbit minus displacement of magnet {i}', rtol=1e-6, atol=3e-9 + 3 * roll * (np.max(np.abs(off)) + e.Length))
                ctx.event('straight magnets without rotation', roll < 1e-12)
        ctx.event('orbits')
    ctx.note(rolled=bool(rolled), magnets=len(used))
    ctx.sig(rolled, len(used), ctx.idx)


SCENARIOS = dict(response=Scenario(response, 400, 3000), rf=Scenario(rf, 160, 1500), rings=Scenario(rings, 300, 3000), orbit=Scenario(orbit, 160, 1500))
