"""C23: sequences of RF and radiation switches compared with a state machine per element, and with the energy change of a tracked particle."""
import numpy as np
import at
from vlib import gen, snap
from vlib.common import Scenario
from pySC.core.lattice_setting import switch_cavity_and_radiation, switch_rf

PID = 'C23'
RULE = ('rings with elements of all tracking methods in random initial states; random sequences of switch requests with one or several '
        'arguments, selected cavities, unknown requests. Distinct by ring and sequence; non-trivial when at least one element changed.')
ASSUMPTIONS = ['Cavities are elements with a frequency and are off as IdentityPass.']

RAD = {'BndMPoleSymplectic4Pass': 'BndMPoleSymplectic4RadPass', 'StrMPoleSymplectic4Pass': 'StrMPoleSymplectic4RadPass',
       'BndMPoleSymplectic4E2Pass': 'BndMPoleSymplectic4E2RadPass'}
BACK = {v: k for k, v in RAD.items()}
OTHER = ['DriftPass', 'IdentityPass', 'CorrectorPass', 'ThinMPolePass', 'BendLinearPass', 'QuadLinearPass', 'QuadMPoleFringePass',
         'AperturePass', 'SolenoidLinearPass', 'BndStrMPoleSymplectic4Pass', 'GWigSymplecticPass', 'ExactSectorBendPass']


def any_ring(rng):
    els = [at.Drift('L', 1.0)]
    for i in range(int(rng.integers(3, 20))):
        k = int(rng.integers(0, 4))
        if k == 0:
            e = at.RFCavity(f'C{i}', float(rng.choice([0.0, 0.5])), float(rng.choice([1e6, 0.0, 1.0])), 5e8, int(rng.choice([100, 1])), 2.5e9)
            e.PassMethod = str(rng.choice(['RFCavityPass', 'IdentityPass']))
        elif k == 1:
            e = at.Dipole(f'B{i}', 1.0, 0.1, 0.2, PassMethod=str(rng.choice(['BndMPoleSymplectic4Pass', 'BndMPoleSymplectic4RadPass', 'BndMPoleSymplectic4E2Pass', 'BndMPoleSymplectic4E2RadPass'])))
        elif k == 2:
            e = at.Quadrupole(f'Q{i}', 1.0, 0.2, PassMethod=str(rng.choice(['StrMPoleSymplectic4Pass', 'StrMPoleSymplectic4RadPass'])))
        else:
            e = at.Drift(f'D{i}', 1.0)
            e.PassMethod = str(rng.choice(OTHER))
        els.append(e)
    return at.Lattice(els, energy=2.5e9, periodicity=1)


def step(method, cav, args):
    if 'radiationoff' in args:
        method = BACK.get(method, method)
    elif 'radiationon' in args:
        method = RAD.get(method, method)
    if cav and 'cavityoff' in args:
        method = 'IdentityPass'
    elif cav and 'cavityon' in args:
        method = 'RFCavityPass'
    return method


VALID = ['radiationoff', 'radiationon', 'cavityoff', 'cavityon']


def sequence(ctx):
    rng = ctx.rng
    ring = any_ring(rng)
    cav = [isinstance(e, at.RFCavity) for e in ring]
    state = [e.PassMethod for e in ring]
    rest = [snap.element(e) for e in ring]
    ops, changed = [], 0
    for _ in range(int(rng.integers(2, 12))):
        r = rng.random()
        old = list(state)
        if r < 0.6:
            args = [str(a) for a in rng.choice(VALID, size=int(rng.choice([0, 1, 1, 1, 2, 2, 3, 4])), replace=bool(rng.random() < 0.2))]
            ring = switch_cavity_and_radiation(ring, *args)
            state = [step(m, c, args) for m, c in zip(state, cav)]
        elif r < 0.75:
            args = [str(a) for a in rng.choice(VALID, size=int(rng.integers(0, 3)))] + [str(rng.choice(['cavity', 'CavityOn', 'radiation', '', 'on', 'radiationon ', 'rfoff']))]
            rng.shuffle(args)
            args = [str(a) for a in args]
            ctx.raises(ValueError, lambda: switch_cavity_and_radiation(ring, *args), f'switch {args}')
        else:
            on = bool(rng.random() < 0.5)
            sel = rng.permutation(len(ring))[:int(rng.integers(0, len(ring) + 1))]
            args = ['rf', on, sel.tolist()]
            form = int(rng.integers(0, 3))
            if form == 0 or not len(sel):
                ring = switch_rf(ring, sel, on)
            elif form == 1:
                ring = switch_rf(ring, [int(i) for i in sel], on)
            else:
                sel = sel[:1]
                args[2] = sel.tolist()
                ring = switch_rf(ring, int(sel[0]), on)
            state = [('RFCavityPass' if on else 'IdentityPass') if c and i in sel else m for i, (m, c) in enumerate(zip(state, cav))]
        ops.append(args)
        now = [e.PassMethod for e in ring]
        ctx.check(now == state, f'after {ops[-3:]}: ' + str([(i, ring[i].FamName, o, n, w) for i, (o, n, w) in enumerate(zip(old, now, state)) if n != w][:3]))
        changed += sum(a != b for a, b in zip(old, state))
        if r < 0.75 and r < 0.6 and rng.random() < 0.5:   # repeating is a no-op
            ring = switch_cavity_and_radiation(ring, *args)
            ctx.check([e.PassMethod for e in ring] == state, f'repeating {args} changed the lattice')
    for i, e in enumerate(ring):
        d = [x for x in snap.diff(rest[i], snap.element(e)) if 'PassMethod' not in x[0]]
        ctx.check(not d, f'switching changed element {i}: {snap.describe(d)}')
    # round trips from a uniform state
    for a, b in (('radiationoff', 'radiationon'), ('radiationon', 'radiationoff'), ('cavityoff', 'cavityon'), ('cavityon', 'cavityoff')):
        ring = switch_cavity_and_radiation(ring, a)
        uniform = [e.PassMethod for e in ring]
        ring = switch_cavity_and_radiation(switch_cavity_and_radiation(ring, b), a)
        ctx.check([e.PassMethod for e in ring] == uniform, f'{a}, {b}, {a} does not return to the state after {a}')
    ctx.note(methods=state, operations=ops)
    ctx.event('elements switched', changed)
    if changed:
        ctx.sig(ops, state)


def physics(ctx):
    """What the switches mean for a tracked particle."""
    rng = ctx.rng
    sc = gen.make_ideal_sc(rng, split_bends=bool(rng.random() < 0.5))
    ring = sc.RING
    z0 = np.zeros((6, 1))
    z0[5] = 0.02

    def gain():
        out = at.lattice_track(ring, z0.copy(), nturns=1, refpts=np.array([len(ring)]))[0][:, 0, 0, 0]
        return out[4]
    want = dict()
    for rf in ('off', 'on'):
        for rad in ('off', 'on'):
            ring = switch_cavity_and_radiation(ring, f'cavity{rf}', f'radiation{rad}')
            want[rf, rad] = gain()
    ctx.check(want['off', 'off'] == 0, f'energy changes by {want["off", "off"]} with everything off')
    ctx.check(want['off', 'on'] < 0, f'energy changes by {want["off", "on"]} with radiation only')
    ctx.check(abs(want['on', 'off']) > 1e-6, f'energy changes by {want["on", "off"]} with cavities only')
    ctx.close(want['on', 'on'] - want['on', 'off'], want['off', 'on'], 'radiation loss with and without cavities', rtol=0.05)
    for _ in range(6):
        rf, rad = str(rng.choice(['on', 'off'])), str(rng.choice(['on', 'off']))
        ring = switch_cavity_and_radiation(ring, f'cavity{rf}', f'radiation{rad}')
        ctx.check(gain() == want[rf, rad], f'energy change {gain()} for cavity {rf}, radiation {rad}, was {want[rf, rad]}')
    ctx.note(gains={f'{k[0]} {k[1]}': v for k, v in want.items()})
    ctx.sig(want['on', 'on'])


SCENARIOS = dict(sequence=Scenario(sequence, 6000, 10000), physics=Scenario(physics, 72, 300))
