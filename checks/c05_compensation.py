"""C05: dipole compensation against a setpoint model, with full-state comparison around every call."""
import numpy as np
import at
from vlib import gen, snap
from vlib.common import Scenario
from pySC.core.simulated_commissioning import SimulatedCommissioning

PID = 'C05'
RULE = ('lines with bends and quadrupoles with every combination of bending angle / corrector / design gradient / limit; repeated gradient '
        'changes in all modes with and without compensation, single and multi-element; all setpoints of all magnets are compared with a model '
        'after every call. Non-trivial: a corrector moved by compensation; distinct by magnet mix and calls.')
ASSUMPTIONS = ['the relative gradient change refers to the design gradient and is undefined without one']


def history(ctx):
    rng = ctx.rng
    elems, info = [], {}
    for i in range(int(rng.integers(2, 6))):
        length, n = float(rng.uniform(0.3, 1.5)), int(rng.integers(2, 4))
        kind = str(rng.choice(['bend', 'bend', 'quad', 'zerobend']))
        k = float(rng.choice([-1, 1]) * rng.uniform(0.1, 1)) * float(rng.random() < 0.85)
        pb = np.zeros(n)
        pb[1] = k
        if kind == 'quad':
            e = at.Quadrupole('Q', length, k, PassMethod='StrMPoleSymplectic4Pass', PolynomB=pb, PolynomA=np.zeros(n))
            angle = 0.0
        else:
            angle = 0.0 if kind == 'zerobend' else float(rng.choice([-1, 1]) * rng.uniform(0.02, 0.3))
            e = at.Dipole('B', length, angle, k, PassMethod='BndMPoleSymplectic4Pass', PolynomB=pb, PolynomA=np.zeros(n))
        hcm = bool(rng.random() < 0.7)
        limit = float(rng.choice([1.0, 1e-4, 1e-3]))
        info[len(elems)] = dict(kind=kind, angle=angle, k=k, hcm=hcm, length=length, limit=limit)
        elems += [e, at.Drift('D', 0.3)]
    sc = SimulatedCommissioning(at.Lattice(elems, energy=2.5e9, periodicity=1))
    sp = {}
    for i, d in info.items():
        kw = dict(HCM=d['limit']) if d['hcm'] else {}
        if not d['hcm'] and rng.random() < 0.5:
            kw['VCM'] = d['limit']
        if d['kind'] != 'quad' and rng.random() < 0.5:
            kw['CF'] = 1
        if rng.random() < 0.5:
            kw['CalErrorB'] = np.array([1e-3, 1e-3])
        sc.register_magnets(np.array([i]), **kw)
        sp[i] = [np.array(sc.RING[i].SetPointA), np.array(sc.RING[i].SetPointB)]
    if rng.random() < 0.5:
        sc.apply_errors()
    moved, calls = 0, []
    for _ in range(int(rng.integers(3, 9))):
        sel = [int(i) for i in rng.choice(list(info), int(rng.integers(1, len(info) + 1)), replace=False)]
        method = str(rng.choice(['abs', 'rel', 'add']))
        comp = bool(rng.random() < 0.7)
        order = int(rng.choice([1, 1, 1, 0]))
        skew = bool(rng.random() < 0.2)
        vals = {'abs': lambda: np.array([(info[i]['k'] or 0.3) * rng.uniform(0.9, 1.1) for i in sel]),
                'rel': lambda: rng.uniform(0.95, 1.05, len(sel)),
                'add': lambda: 0.02 * rng.standard_normal(len(sel))}[method]()
        kw = dict(dipole_compensation=comp) if comp or rng.random() < 0.5 else {}
        for i, v in zip(sel, vals):
            d = info[i]
            nom = [0.0, d['k']][order] * (not skew)
            new = dict(abs=v, rel=v * nom, add=sp[i][1 - skew][order] + v)[method]
            if comp and order == 1 and d['hcm'] and d['angle'] != 0 and d['k'] != 0 and not skew:
                h = -sp[i][1][0] * d['length'] + (new - sp[i][1][1]) / d['k'] * d['angle']
                if abs(h) > d['limit']:
                    h = np.sign(h) * d['limit']
                sp[i][1][0] = -h / d['length']
                moved += 1
            sp[i][1 - skew][order] = new
        sc.set_magnet_setpoints(np.array(sel), vals, skew, order, method, **kw)
        calls.append((method, comp, order, skew, len(sel)))
        for i in info:
            what = f'{calls[-1]}: element {i} ({info[i]["kind"]}, corrector={info[i]["hcm"]})'
            ctx.close(sc.RING[i].SetPointB, sp[i][1], what + ' normal setpoints', rtol=1e-9, atol=1e-14)
            ctx.close(sc.RING[i].SetPointA, sp[i][0], what + ' skew setpoints', rtol=1e-12, atol=1e-16)
        before = snap.ring(sc.RING)
        sc.update_magnets()
        dd = snap.diff(before, snap.ring(sc.RING), rtol=1e-13)
        dd = [x for x in dd if x[0][2] != 'MaxOrder' and x[0][1] in sel]
        ctx.check(not dd, 'fields are not up to date after compensation: ' + snap.describe(dd))
    ctx.event('compensations', moved)
    ctx.note(magnets=[(d['kind'], d['hcm']) for d in info.values()], calls=calls, moved=moved)
    if moved:
        ctx.sig([(d['kind'], d['hcm']) for d in info.values()], calls)


def orbit(ctx):
    """Compensation in the ring keeps the reference trajectory: the geometric angle of the bend is preserved by the corrector."""
    rng = ctx.rng
    length, angle = float(rng.uniform(0.5, 1.5)), float(rng.uniform(0.02, 0.2))
    k = float(rng.uniform(0.2, 1) * rng.choice([-1, 1]))
    e = at.Dipole('B', length, angle, k, PassMethod='BndMPoleSymplectic4Pass', PolynomB=np.array([0, k]), PolynomA=np.zeros(2),
                  NumIntSteps=20)
    sc = SimulatedCommissioning(at.Lattice([at.Marker('M'), e, at.Marker('M')], energy=2.5e9, periodicity=1))
    sc.register_magnets(np.array([1]), HCM=10.0, CF=1)
    rel = float(rng.uniform(0.97, 1.03))
    sc.set_magnet_setpoints(1, rel, False, 1, 'rel', dipole_compensation=True)
    out = at.lattice_track(sc.RING.copy(), np.zeros((6, 1)), nturns=1, refpts=[3])[0].reshape(6)
    sc2 = SimulatedCommissioning(at.Lattice([at.Marker('M'), e, at.Marker('M')], energy=2.5e9, periodicity=1))
    sc2.register_magnets(np.array([1]), HCM=10.0, CF=1)
    sc2.set_magnet_setpoints(1, rel, False, 1, 'rel')
    raw = at.lattice_track(sc2.RING.copy(), np.zeros((6, 1)), nturns=1, refpts=[3])[0].reshape(6)
    ctx.check(abs(raw[1]) > 0.5 * abs((rel - 1) * angle) * 0.5, 'uncompensated change does not kick the beam')
    ctx.close(out[1], 0.0, 'deflection with compensation', rtol=0, atol=1e-6 * abs(raw[1]) + 1e-12)
    ctx.close(out[0], 0.0, 'displacement with compensation', rtol=0, atol=1e-6 * abs(raw[1]) + 1e-12)
    ctx.note(angle=angle, k=k, rel=rel)
    ctx.sig(angle, k)


SCENARIOS = dict(history=Scenario(history, 3000, 20000), orbit=Scenario(orbit, 120, 300))
