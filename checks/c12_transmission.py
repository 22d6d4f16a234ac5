"""C12: reported transmission compared with an independent serial tracking of the recorded bunch, particle by particle and turn by turn."""
import numpy as np
import at
from vlib import gen, snap
from vlib.common import Scenario
from pySC.core.beam import beam_transmission

PID = 'C12'
RULE = ('random machines with apertures, beam sizes from harmless to far beyond acceptance, random particle and turn numbers from settings '
        'or call, random loss thresholds; the injected bunch is recorded by the user hook and tracked serially. Distinct by settings; '
        'non-trivial when some but not all particles survive, or the turn count differs from both ends.')
ASSUMPTIONS = []


def counts(ctx):
    rng = ctx.rng
    ap = [float(rng.uniform(1e-3, 8e-3)), float(rng.uniform(1e-3, 8e-3))]
    sc, o = gen.make_sc(rng, dict(apertures=ap if rng.random() < 0.9 else None), scale=float(rng.choice([0.2, 1.0])))
    sig = np.array([1e-3, 2e-4, 1e-3, 2e-4, 3e-3, 1e-2]) * float(rng.choice([0.03, 0.3, 1, 2]))
    sc.INJ.beamSize = np.diag(sig ** 2)
    sc.INJ.Z0 = sc.INJ.Z0 + rng.normal(0, 1, 6) * np.array([1e-3, 1e-4, 1e-3, 1e-4, 1e-3, 1e-2]) * float(rng.choice([0.1, 1]))
    sc.INJ.nParticles = int(rng.choice([1, 2, 4, 8, 16, 30]))
    sc.INJ.nTurns = int(rng.integers(1, 12))
    sc.INJ.nShots = int(rng.integers(1, 3))
    sc.INJ.beamLostAt = float(rng.choice([1.0, 0.5, 0.25, 0.75, rng.uniform(0.02, 0.99)]))
    kw = {}
    if rng.random() < 0.5:
        kw['nParticles'] = int(rng.choice([1, 2, 5, 20]))
    if rng.random() < 0.5:
        kw['nTurns'] = int(rng.integers(1, 25))
    n, turns = kw.get('nParticles', sc.INJ.nParticles), kw.get('nTurns', sc.INJ.nTurns)
    seen = []

    def hook(z):
        seen.append(np.array(z))
        return z
    sc.INJ.postFun = hook
    before = snap.machine(sc)
    got, frac = beam_transmission(sc, **kw)
    d = snap.diff(before, snap.machine(sc))
    ctx.check(not d, f'computing the transmission changed the machine: {snap.describe(d)}')
    ctx.check(len(seen) == 1 and seen[0].shape == (6, n), f'{len(seen)} bunches of shape {[z.shape for z in seen]}, {n} particles requested')
    frac = np.asarray(frac, float)
    ctx.check(frac.shape == (turns,), f'transmission of shape {frac.shape} for {turns} turns')
    ctx.check(np.all((frac >= 0) & (frac <= 1)), f'transmission {frac}')
    ctx.check(np.all(np.diff(frac) <= 0), f'transmission increases: {frac}')
    ring = at.Lattice([e.deepcopy() for e in sc.RING], energy=sc.RING.energy, periodicity=1)
    alive = np.zeros((n, turns), dtype=bool)
    for p in range(n):        # one particle at a time, one turn at a time
        z = seen[0][:, [p]].copy()
        for t in range(turns):
            z = at.lattice_track(ring, z, nturns=1, refpts=np.array([len(ring)]), keep_counter=t > 0)[0][:, :, 0, 0]
            alive[p, t] = not np.isnan(z[0, 0])
            if not alive[p, t]:
                break
    want = alive.mean(axis=0)
    ctx.close(frac, want, f'surviving fraction of {n} particles over {turns} turns', rtol=1e-12)
    ctx.check(int(got) == int(np.sum(want > 1 - sc.INJ.beamLostAt)), f'{got} turns reported for transmission {want} and allowed loss {sc.INJ.beamLostAt}')
    ctx.check(isinstance(got, (int, np.integer)), f'turn number of type {type(got)}')
    ctx.event('particle turns', n * turns)
    ctx.event('particles lost', int((~alive[:, -1]).sum()))
    ctx.note(apertures=ap, particles=n, turns=turns, lost_at=sc.INJ.beamLostAt, transmission=want, reported=got)
    if 0 < want[-1] < 1 or 0 < got < turns:
        ctx.sig(n, turns, ctx.idx)


def actual(ctx):
    """It is the machine with its errors that counts, not the design; and the plain wrapper agrees with the pool."""
    rng = ctx.rng
    sc, o = gen.make_sc(rng, dict(apertures=[3e-3, 3e-3]), scale=0.2)
    n = int(rng.choice([1, 3]))
    sc.INJ.nParticles, sc.INJ.nTurns = n, 3
    sc.INJ.Z0 = np.zeros(6)
    sc.INJ.beamSize = np.zeros((6, 6))
    sc.INJ.randomInjectionZ = np.zeros(6)
    if not np.all(beam_transmission(sc)[1] == 1):
        return
    where = int(rng.choice(sc.ORD.HCM))
    limit = np.array(sc.RING[where].CMlimit)
    sc.RING[where].CMlimit = np.array([1.0, 1.0])
    sc.set_cm_setpoints(np.array([where]), np.array([float(rng.choice([-1, 1]) * 0.1)]), skewness=bool(rng.random() < 0.5))
    t, f = beam_transmission(sc)
    ctx.check(t == 0 and np.all(f == 0), f'beam survives a kick of 0.1 rad: {f}')
    sc.set_cm_setpoints(np.array([where]), np.array([0.0]), skewness=False)
    sc.set_cm_setpoints(np.array([where]), np.array([0.0]), skewness=True)
    ctx.check(beam_transmission(sc)[0] == 3, 'beam is lost after removing the kick')
    # apertures anywhere in the ring count
    aware = [i for i, e in enumerate(sc.RING) if e.PassMethod in ('DriftPass', 'StrMPoleSymplectic4Pass', 'BndMPoleSymplectic4Pass')]
    for el in (aware[0], int(rng.choice(aware)), aware[-1]):
        sc.RING[el].RApertures = np.array([1.0, 2.0, -1.0, 1.0])
        t, f = beam_transmission(sc)
        ctx.check(t == 0 and np.all(f == 0), f'a closed aperture at element {el} does not stop the beam: {f}')
        sc.RING[el].RApertures = np.array([-1.0, 1.0, -1.0, 1.0])
    ctx.check(beam_transmission(sc)[0] == 3, 'beam is lost with open apertures')
    ctx.note(corrector=where, particles=n)
    ctx.sig(where, n, ctx.idx)


SCENARIOS = dict(counts=Scenario(counts, 250, 3000), actual=Scenario(actual, 30, 300))
