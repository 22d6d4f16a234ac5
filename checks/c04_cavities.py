"""C04: cavity law monitored over histories, on stored parameters and on the energy kick of a tracked particle."""
import numpy as np
import at
from vlib import gen, snap
from vlib.common import Scenario
from pySC.core.simulated_commissioning import SimulatedCommissioning

PID = 'C04'
RULE = ('random numbers of cavities, random subsets of uncertainties per cavity, histories of error applications, setpoint calls, manual '
        'error changes and updates; after each step voltage, frequency and time lag of every cavity are compared with a model and a particle '
        'is tracked through one cavity. Distinct by registration and history; non-trivial when a parameter differs from design.')
ASSUMPTIONS = ['registration happens before errors are applied']
PARAMS = ('Voltage', 'Frequency', 'TimeLag')
LIGHT = 299792458.0


def history(ctx):
    rng = ctx.rng
    elems, cavs = [], []
    n = int(rng.integers(1, 5))
    for i in range(n):
        c = at.RFCavity('CAV', float(rng.choice([0.0, 0.3])), float(rng.uniform(1e5, 2e6)), float(rng.uniform(1e8, 5e8)), 100, 2.5e9)
        c.TimeLag = float(rng.choice([0.0, 0.05, -0.1]))
        c.PassMethod = 'RFCavityPass'
        cavs.append(len(elems))
        elems += [c, at.Drift('D', 0.5)]
    elems.append(at.Drift('L', 20.0))
    ring = at.Lattice(elems, energy=2.5e9, periodicity=1)
    sc = SimulatedCommissioning(ring)
    reg = {}
    for _ in range(int(rng.integers(1, 3))):
        sel = [int(i) for i in rng.choice(cavs, int(rng.integers(1, n + 1)), replace=False)]
        kw = {}
        for p in PARAMS:
            if rng.random() < 0.5:
                sig = dict(Voltage=1e4, Frequency=1e3, TimeLag=0.05)[p]
                kw[p + 'Offset'] = sig if rng.random() < 0.7 else [sig, 1]
            if rng.random() < 0.5:
                kw[p + 'CalError'] = 0.01 if rng.random() < 0.7 else [0.01, 1.5]
        sc.register_cavities(np.array(sel), **kw)
        for i in sel:
            reg[i] = None
        for i in reg:
            for p in PARAMS:
                ctx.close(getattr(sc.RING[i], p + 'SetPoint'), getattr(ring[i], p), f'{p} setpoint after registration')
                ctx.close(getattr(sc.RING[i], p), getattr(ring[i], p), f'{p} after registration')
    sp = {i: {p: float(getattr(ring[i], p)) for p in PARAMS} for i in reg}
    known = sorted(reg)
    ops = []
    for _ in range(int(rng.integers(4, 12))):
        k = int(rng.integers(5))
        if k == 0:
            sc.apply_errors(float(rng.choice([1, 2, 3])))
            ops.append('apply')
        elif k in (1, 2):
            sel = [int(i) for i in rng.choice(known, int(rng.integers(1, len(known) + 1)), replace=False)]
            p = str(rng.choice(PARAMS))
            m = str(rng.choice(['abs', 'rel', 'add']))
            size = dict(Voltage=1e5, Frequency=1e6, TimeLag=0.1)[p]
            v = size * rng.uniform(0.1, 2, len(sel)) if m != 'rel' else rng.uniform(0.5, 1.5, len(sel))
            for i, x in zip(sel, v):
                sp[i][p] = dict(abs=x, add=sp[i][p] + x, rel=sp[i][p] * x)[m]
            sc.set_cavity_setpoints(np.array(sel), v, p, m)
            ops.append(f'{p} {m} {len(sel)}')
        elif k == 3:
            i, p = int(rng.choice(known)), str(rng.choice(PARAMS))
            setattr(sc.RING[i], p + 'CalError', float(0.02 * rng.standard_normal()))
            setattr(sc.RING[i], p + 'Offset', float(0.01 * rng.standard_normal()))
            sc.update_cavities(np.array([i]))
            ops.append('manual')
        else:
            sc.update_cavities()
            ops.append('update')
        for i in cavs:
            e = sc.RING[i]
            for p in PARAMS:
                if i in sp:
                    ctx.close(getattr(e, p + 'SetPoint'), sp[i][p], f'{ops[-1]}: {p} setpoint of cavity {i}', rtol=1e-12)
                    want = sp[i][p] * (1 + float(getattr(e, p + 'CalError'))) + float(getattr(e, p + 'Offset'))
                    ctx.close(getattr(e, p), want, f'{ops[-1]}: {p} of cavity {i}', rtol=1e-12)
                else:
                    ctx.close(getattr(e, p), getattr(ring[i], p), f'{ops[-1]}: {p} of unregistered cavity {i}', rtol=0, atol=0)
                ctx.close(getattr(sc.IDEALRING[i], p), getattr(ring[i], p), f'{ops[-1]}: design {p} of cavity {i}', rtol=0, atol=0)
        i = int(rng.choice(known))
        e = sc.RING[i]
        z = np.zeros((6, 1))
        z[5] = float(rng.uniform(-0.1, 0.1))
        both = at.lattice_track(sc.RING.copy(), z.copy(), nturns=1, refpts=[i, i + 1])[0][4:, 0, :, 0]
        got = both[0, 1] - both[0, 0]
        v = sp[i]['Voltage'] * (1 + float(e.VoltageCalError)) + float(e.VoltageOffset)
        f = sp[i]['Frequency'] * (1 + float(e.FrequencyCalError)) + float(e.FrequencyOffset)
        lag = sp[i]['TimeLag'] * (1 + float(e.TimeLagCalError)) + float(e.TimeLagOffset)
        ctx.close(got, -v / 2.5e9 * np.sin(2 * np.pi * f * (both[1, 0] - lag) / LIGHT), 'tracked energy kick', rtol=1e-6,
                  atol=1e-9 * v / 2.5e9 + 1e-15)
        ctx.event('energy kicks tracked')
    ctx.note(cavities=n, registered=len(known), ops=ops)
    ctx.sig(n, known, ops)


SCENARIOS = dict(history=Scenario(history, 1500, 4000))
