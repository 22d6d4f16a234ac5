"""C30: random valid machines and machines with one or several planted defects are verified; exceptions, warnings (log records) and complete states before and after are judged."""
import re
import numpy as np
import at
from vlib import gen, snap
from vlib.common import LogCapture, Scenario
from pySC.core.simulated_commissioning import SimulatedCommissioning

PID = 'C30'
RULE = ('random machines (elements, split and combined-function magnets, supports, uncertainties, operations) without defect, with each kind of defect at a random place, and with several at once. '
        'Distinct by machine and defects; non-trivial when warnings were counted.')
ASSUMPTIONS = ['wording of messages is free; a defect of one element must name its index']


def machine(ctx, **flags):
    """A valid machine; flags leave out a part of the registration."""
    rng = ctx.rng
    kind = dict(corr_elements=bool(rng.random() < 0.4), split_bends=bool(rng.random() < 0.4))
    cf = not kind['split_bends'] and rng.random() < 0.4
    ring = gen.make_ring(rng, cf_bends=bool(cf), long_poly=bool(rng.random() < 0.3), rf=flags.get('rf', True),
                         apertures=None, **kind)
    if flags.get('apertures', True):
        # parts of split magnets carry the same fields
        allowed = [i for i, e in enumerate(ring) if not e.FamName.startswith('BEND')]
        for i in rng.choice(allowed, int(rng.integers(1, len(allowed))), replace=False):
            field, val = (('EApertures', [0.02, 0.01]), ('RApertures', [-0.02, 0.02, -0.01, 0.01]))[int(rng.integers(2))]
            setattr(ring[int(i)], field, np.array(val))
    sc = SimulatedCommissioning(ring)
    r = sc.RING
    mag = bool(rng.random() < 0.8)
    if all(flags.get(k, True) for k in ('bpm', 'hcm', 'vcm')) and rng.random() < 0.5:
        o = gen.register_all(sc, rng, scale=float(rng.choice([0.1, 1])), mag=mag, rf=bool(rng.random() < 0.5), supports=bool(rng.random() < 0.6), cf=bool(cf),
                             inj=bool(rng.random() < 0.6), circ=bool(rng.random() < 0.3), master=kind['split_bends'] and bool(rng.random() < 0.6), skew=bool(rng.random() < 0.6))
    else:
        o = {k: gen.ords(r, n) for k, n in dict(qf='QF', qd='QD', sf='SF', sd='SD', bpm='BPM', cav='RFCav', cor='COR', bend='BEND', benda='BENDa', bendb='BENDb').items()}
        if flags.get('bpm', True):
            sc.register_bpms(o['bpm'], **({} if rng.random() < 0.5 else dict(Offset=1e-4 * np.ones(2), NoiseCO=1e-6 * np.ones(2))))
        for fam in rng.permutation(['qf', 'qd', 'sf', 'sd', 'bend']):
            if not len(o[fam]):
                continue
            kw = {}
            if fam in ('qf', 'sd') and flags.get('hcm', True):
                kw['HCM'] = float(rng.uniform(1e-4, 1e-3))
            if fam in ('qf', 'sf') and flags.get('vcm', True):
                kw['VCM'] = float(rng.uniform(1e-4, 1e-3))
            if fam == 'bend' and cf:
                kw['CF'] = True
            if rng.random() < 0.5:
                kw['MagnetOffset'] = 1e-5 * np.ones(3)
            if rng.random() < 0.3:
                kw['CalErrorB'] = 1e-3 * np.ones(2)
            sc.register_magnets(o[fam], **kw)
        if len(o['cav']):
            sc.register_cavities(o['cav'], **({} if rng.random() < 0.5 else dict(VoltageOffset=1e3)))
        if rng.random() < 0.5:
            o['Girder'] = np.vstack((gen.ords(r, 'GirderStart'), gen.ords(r, 'GirderEnd')))
            sc.register_supports(o['Girder'], 'Girder', Offset=1e-5 * np.ones(3))
    if rng.random() < 0.7 and flags.get('apply', True):
        sc.apply_errors()
        if 'bend' in o and len(sc.ORD.RF) and len(sc.ORD.HCM) and len(sc.ORD.VCM):
            for _ in range(int(rng.integers(0, 4))):
                gen.random_op(sc, o, rng)[1]()
    if rng.random() < 0.3:
        n = int(rng.integers(1, 5))
        sc.set_random_multipole_errors(o['qf'], 1e-4 * np.ones((n, 2)))
    return sc, o


def verify(ctx, sc):
    """Warnings of a verification which must not change anything."""
    before = snap.machine(sc)
    state = np.random.get_state()[1].copy(), np.random.get_state()[2]
    try:
        with LogCapture() as log:
            res = sc.verify_structure()
    finally:
        d = snap.diff(snap.machine(sc), before)
        ctx.check(not d, f'verification changed {snap.describe(d)}')
        ctx.check(np.array_equal(np.random.get_state()[1], state[0]) and np.random.get_state()[2] == state[1], 'verification used random numbers')
    ctx.check(not log.messages('ERROR') and not log.messages('CRITICAL'), f'{log.records}')
    return log.messages('WARNING')


def valid(ctx):
    sc, o = machine(ctx)
    warn = verify(ctx, sc)
    ctx.check(not warn, f'valid machine: {warn[:3]}')
    ctx.check(verify(ctx, sc) == warn, 'second verification differs')
    sc.apply_errors()
    ctx.check(not verify(ctx, sc), 'valid machine after applying errors')
    c = sc.very_deep_copy()
    ctx.check(not verify(ctx, c), 'copy of a valid machine')
    ctx.note(n=len(sc.RING), magnets=len(sc.ORD.Magnet))
    ctx.sig(ctx.idx)


def w_hcm(sc, o, rng):
    i = int(rng.choice(sc.ORD.HCM))
    if rng.random() < 0.5:
        sc.RING[i].CMlimit = sc.RING[i].CMlimit * np.array([0.0, 1.0])
    else:
        sc.register_magnets(np.array([i]), HCM=0.0)
    return i


def w_vcm(sc, o, rng):
    i = int(rng.choice(sc.ORD.VCM))
    sc.RING[i].CMlimit = sc.RING[i].CMlimit * np.array([1.0, 0.0])
    return i


def w_both(sc, o, rng):
    i = int(rng.integers(len(sc.RING)))
    sc.RING[i].EApertures, sc.RING[i].RApertures = np.array([0.02, 0.02]), np.array([-0.01, 0.01, -0.01, 0.01])
    return i


def w_sig(sc, o, rng):
    i = int(rng.choice(sc.ORD.Magnet))
    sc.SIG.Magnet[i]['Unknown'] = 1e-3
    return i


def w_sig_reg(sc, o, rng):
    """Uncertainty of the bending angle of a magnet without bending."""
    i = int(rng.choice(np.concatenate((o['qf'], o['sd']))))
    sc.SIG.Magnet[i]['BendingAngle'] = 1e-3
    return i


def w_sig_rf(sc, o, rng):
    i = int(rng.choice(sc.ORD.RF))
    sc.SIG.RF[i]['Unknown'] = 1.0
    return i


def w_child(sc, o, rng):
    masters = [i for i in sc.ORD.Magnet if hasattr(sc.RING[i], 'MasterOf')]
    if masters:
        m = int(rng.choice(masters))
        c = int(rng.choice(sc.RING[m].MasterOf))
    else:
        m = int(rng.choice(sc.ORD.Magnet))
        c = int(rng.choice(np.setdiff1d(np.arange(len(sc.RING)), sc.ORD.Magnet)))
        sc.RING[m].MasterOf = np.array([c])
    sc.RING[c].SomeField = 1.0
    return c, m


def w_cf_gradient(sc, o, rng):
    bends = [i for i in sc.ORD.Magnet if hasattr(sc.RING[i], 'BendingAngle') and len(sc.RING[i].NomPolynomB) > 1]
    if not bends:
        return None
    i = int(rng.choice(bends))
    sc.RING[i].CombinedFunction = True
    sc.RING[i].NomPolynomB = sc.RING[i].NomPolynomB * (np.arange(len(sc.RING[i].NomPolynomB)) != 1)
    return i


def w_cf_angle(sc, o, rng):
    bends = [i for i in sc.ORD.Magnet if hasattr(sc.RING[i], 'BendingAngle') and len(sc.RING[i].NomPolynomB) > 1]
    if not bends:
        return None
    i = int(rng.choice(bends))
    sc.RING[i].CombinedFunction = True
    if sc.RING[i].NomPolynomB[1] == 0:
        nom = sc.RING[i].NomPolynomB.copy()
        nom[1] = 0.1
        sc.RING[i].NomPolynomB = nom
    sc.RING[i].BendingAngle = 0.0
    return i


def dup(name):
    def f(sc, o, rng):
        v = getattr(sc.ORD, name)
        setattr(sc.ORD, name, np.sort(np.append(v, rng.choice(v))))
        return 'machine'
    return f


def lengths(field):
    def f(sc, o, rng):
        i = int(rng.choice(sc.ORD.Magnet))
        e = sc.RING[i]
        grow = rng.random() < 0.5 or len(getattr(e, field)) < 2 or field.startswith('Polynom')
        v = np.asarray(getattr(e, field))
        setattr(e, field, np.append(v, 0.0) if grow else v[:-1])
        return i
    return f


def r_offset(which):
    def f(sc, o, rng):
        i = int(rng.choice(sc.ORD.Magnet))
        n = int(rng.integers(1, 5))
        sc.RING[i].PolynomBOffset, sc.RING[i].PolynomAOffset = np.zeros(n + (which == 0)), np.zeros(n + (which == 1))
        return i
    return f


def r_cf(sc, o, rng):
    i = int(rng.choice(np.concatenate((o['qf'], o['qd']))))
    if i not in sc.ORD.Magnet or rng.random() < 0.5:
        sc.register_magnets(np.array([i]), CF=True)
    else:
        sc.RING[i].CombinedFunction = True
    return i


def r_shape(where, name, shapes):
    def f(sc, o, rng):
        setattr(getattr(sc, where), name, np.zeros(shapes[int(rng.integers(len(shapes)))]))
        return 'machine'
    return f


def r_support(typ):
    def f(sc, o, rng):
        if len(sc.ORD.Girder[0]):
            sc.ORD.Girder = np.zeros((2, 0), dtype=int)
        pair = np.vstack((gen.ords(sc.RING, typ + 'Start'), gen.ords(sc.RING, typ + 'End')))
        sc.register_supports(pair, typ)
        return 'machine'
    return f


WARN = dict(hcm=w_hcm, vcm=w_vcm, both=w_both, sig=w_sig, sig_angle=w_sig_reg, sig_rf=w_sig_rf, child=w_child, cf_gradient=w_cf_gradient, cf_angle=w_cf_angle,
            bpm_twice=dup('BPM'), hcm_twice=dup('HCM'), vcm_twice=dup('VCM'), rf_twice=dup('RF'))
RAISE = dict(polynom_a=lengths('PolynomA'), polynom_b=lengths('PolynomB'), setpoint_a=lengths('SetPointA'), setpoint_b=lengths('SetPointB'), cal_a=lengths('CalErrorA'), cal_b=lengths('CalErrorB'),
             offset_a=r_offset(0), offset_b=r_offset(1), cf=r_cf, beam=r_shape('INJ', 'beamSize', [(6,), (6, 5), (5, 6), (1, 6, 6), (4, 4)]),
             random=r_shape('SIG', 'randomInjectionZ', [(5,), (7,), (6, 1), (1, 6), ()]), static=r_shape('SIG', 'staticInjectionZ', [(5,), (7,), (6, 1), (1, 6), ()]),
             plinth=r_support('Plinth'), section=r_support('Section'))


def warned(ctx):
    names = list(WARN)
    rng = ctx.rng
    sc, o = machine(ctx)
    base = verify(ctx, sc)
    ctx.check(not base, f'valid machine: {base[:3]}')
    todo = [names[ctx.idx % len(names)]] if rng.random() < 0.6 else list(rng.choice(names, 3, replace=False))
    where = {}
    for n in sorted(map(str, todo), key=lambda n: n.endswith('twice')):  # registering removes repeated ordinates
        where[n] = WARN[n](sc, o, rng)
    where = {k: v for k, v in where.items() if v is not None}
    warn = verify(ctx, sc)
    if 'child' in where:
        c, m = where['child']
        text = [re.findall(r'\b(child|master)\b[^0-9]*(\d+)', w.lower()) for w in warn if re.search(r'\bSomeField\b', w)]
        ctx.check(any({('child', str(c)), ('master', str(m))} == set(t) for t in text) or not any(text), f'child {c} of master {m}: {warn}')
        where['child'] = c
    ctx.check(len(set(warn)) >= len(set(where.values())), f'{where}: only {warn}')
    for n, i in where.items():
        if i != 'machine':
            ctx.check(any(re.search(rf'(?<!\d){i}(?!\d)', w) for w in warn), f'{n} of element {i} is not reported: {warn}')
        ctx.event(f'warning: {n}')
    if len(where) == 1 and 'machine' in where.values():
        ctx.check(len(warn) >= 1, f'{todo} is not reported')
    ctx.note(defects=where)
    ctx.sig(tuple(sorted(where.items(), key=str)), ctx.idx)


def missing(ctx):
    """A missing registration or no apertures: one more warning each."""
    rng = ctx.rng
    keys = ['bpm', 'hcm', 'vcm', 'rf', 'apertures']
    drop = [keys[ctx.idx % 5]] if rng.random() < 0.6 else list(rng.choice(keys, int(rng.integers(2, 6)), replace=False))
    sc, o = machine(ctx, **{k: False for k in drop})
    warn = verify(ctx, sc)
    ctx.check(len(set(warn)) == len(drop), f'without {drop}: {warn}')
    ctx.event('missing ' + '+'.join(sorted(drop)))
    ctx.note(missing=drop)
    ctx.sig(tuple(sorted(drop)), ctx.idx)


def raised(ctx):
    names = list(RAISE)
    rng = ctx.rng
    sc, o = machine(ctx)
    name = names[ctx.idx % len(names)]
    if rng.random() < 0.3:
        WARN[str(rng.choice(['both', 'sig', 'hcm']))](sc, o, rng)
    i = RAISE[name](sc, o, rng)
    try:
        verify(ctx, sc)
    except ValueError as e:
        if i != 'machine':
            ctx.check(re.search(rf'(?<!\d){i}(?!\d)', str(e)), f'{name} of element {i} is reported as {e}')
    else:
        ctx.fail(f'{name} (element {i}) is not reported')
    ctx.event(f'error: {name}')
    ctx.note(defect=name, element=i)
    ctx.sig(name, i, ctx.idx)


SCENARIOS = dict(valid=Scenario(valid, 120, 1500), warned=Scenario(warned, 312, 5200), missing=Scenario(missing, 120, 2000), raised=Scenario(raised, 336, 5600))
