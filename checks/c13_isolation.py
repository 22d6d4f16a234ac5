"""C13: memory-overlap monitor over machine, design lattice, input lattice, copies and caller arrays, plus exact snapshots across mutations."""
import copy
import numpy as np
import at
from vlib import gen, snap
from vlib.common import Scenario
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.core.beam import bpm_reading, all_elements_reading, generate_bunches, beam_transmission
from pySC.lattice_properties.response_model import SCgetModelRM, SCgetModelRING, SCgetModelDispersion
from pySC.lattice_properties.response_measurement import response_matrix, dispersion
from pySC.lattice_properties.magnet_orbit import SCgetCOD
from pySC.correction.orbit_trajectory import correct

PID = 'C13'
RULE = ('machines created from lattices with distinct and repeated element objects, registered with arrays and lists in all accepted formats, '
        'long operation sequences on machine and copies, in-place changes of every passed-in and every returned array. Distinct by operation '
        'sequence; every case compares all arrays of all holders for overlapping memory.')
ASSUMPTIONS = ['Parts of a split magnet may share the transformation tables of their main magnet.',
               'Arrays which the user assigns as attributes himself (e.g. injection settings) are the user\'s.']


def arrays(holder, name):
    return [(p, a) for p, a in snap.walk_arrays(holder, (name,)) if isinstance(a, np.ndarray) and a.size and a.dtype != object]


def parts(sc, name):
    return arrays(list(sc.RING), name + '.RING') + arrays(list(sc.IDEALRING), name + '.IDEALRING') + arrays(vars(sc.INJ), name + '.INJ') + \
        arrays(dict(sc.SIG), name + '.SIG') + arrays(dict(sc.ORD), name + '.ORD')


def overlaps(lst, allowed=lambda p, q: False):
    """Pairs of arrays sharing memory, by interval sweep and exact test."""
    spans = sorted(((*np.lib.array_utils.byte_bounds(a), p, a) for p, a in lst), key=lambda x: x[0])
    out, active = [], []
    for lo, hi, p, a in spans:
        active = [x for x in active if x[1] > lo]
        for _, _, q, b in active:
            if not allowed(p, q) and np.shares_memory(a, b):
                out.append((q, p))
        active.append((lo, hi, p, a))
    return out


def split_tables(sc, name):
    fam = {}
    for i in sc.ORD.Magnet:
        for c in getattr(sc.RING[i], 'MasterOf', []):
            fam[int(c)] = int(i)

    def ok(p, q):
        if p[0] != name + '.RING' or q[0] != name + '.RING' or p[-1] != q[-1] or p[-1] not in ('T1', 'T2', 'R1', 'R2'):
            return False
        return fam.get(p[1], p[1]) == fam.get(q[1], q[1])
    return ok


def separate(ctx, holders, what, *machines):
    oks = [split_tables(sc, n) for sc, n in machines]
    lst = []
    for sc, n in machines:
        lst += parts(sc, n)
    for h, n in holders:
        lst += arrays(h, n)
    bad = overlaps(lst, lambda p, q: any(ok(p, q) for ok in oks))
    ctx.event('arrays compared', len(lst))
    ctx.check(not bad, f'{what}: shared memory between {bad[:3]} ({len(bad)} pairs)')
    for sc, n in machines:
        ids = [id(e) for e in sc.RING] + [id(e) for e in sc.IDEALRING]
        ctx.check(len(set(ids)) == len(ids), f'{what}: {n} uses one element object at several places')


def ring_shared(rng):
    """A ring in which the same element objects appear many times, as lattice files define them."""
    b = gen.make_ring(rng, corr_elements=bool(rng.random() < 0.5))
    first = {}
    out = []
    for e in b:
        key = (e.FamName, type(e).__name__)
        out.append(first.setdefault(key, e))
    return at.Lattice(out, energy=b.energy, periodicity=1)


def ops(sc, o, rng, n):
    names = []
    for _ in range(n):
        k = rng.random()
        if k < 0.6:
            name, f = gen.random_op(sc, o, rng)
            f()
        elif k < 0.7:
            name = 'syspol'
            q = rng.choice(o['qf'], 2, replace=False)
            ba = 1e-4 * rng.normal(size=(4, 2))
            sc.set_systematic_multipole_errors(q, ba, 1, False)
            sc.update_magnets(q)
        elif k < 0.8:
            name = 'ranpol'
            sc.set_random_multipole_errors(o['sd'], 1e-4 * np.ones((4, 2)))
            sc.update_magnets(o['sd'])
        elif k < 0.9:
            name = 'supports'
            sc.update_supports()
        else:
            name = 'rf'
            sc.set_cavity_setpoints(sc.ORD.RF, 0.01, 'TimeLag', 'add')
        names.append(name)
    return names


def creation(ctx):
    rng = ctx.rng
    repeated = bool(rng.random() < 0.6)
    ring = ring_shared(rng) if repeated else gen.make_ring(rng, split_bends=bool(rng.random() < 0.3), corr_elements=bool(rng.random() < 0.3))
    before = snap.ring(ring)
    sc = SimulatedCommissioning(ring)
    separate(ctx, [([e for e in {id(e): e for e in ring}.values()], 'input')], 'after creation', (sc, 'SC'))
    ctx.check(not ({id(e) for e in ring} & ({id(e) for e in sc.RING} | {id(e) for e in sc.IDEALRING})), 'elements of the given lattice are used')
    for name, r in (('machine', sc.RING), ('design', sc.IDEALRING)):
        d = snap.diff(before['elements'], snap.ring(r)['elements'])
        ctx.check(not d, f'{name} lattice differs from the given one: {snap.describe(d)}')
    ideal = snap.ring(sc.IDEALRING)
    o = gen.register_all(sc, rng, master=bool(rng.random() < 0.5), circ=bool(rng.random() < 0.3))
    names = []
    sc.apply_errors()
    for _ in range(3):
        names += ops(sc, o, rng, int(rng.integers(1, 6)))
        sc.INJ.nTurns = int(rng.integers(1, 4))
        bpm_reading(sc)
        separate(ctx, [([e for e in {id(e): e for e in ring}.values()], 'input')], f'after {names}', (sc, 'SC'))
        d = snap.diff(before, snap.ring(ring))
        ctx.check(not d, f'the given lattice was modified by {names}: {snap.describe(d)}')
        d = snap.diff(ideal, snap.ring(sc.IDEALRING))
        ctx.check(not d, f'the design lattice was modified by {names}: {snap.describe(d)}')
    # later changes of the given lattice do not reach the machine
    now = snap.machine(sc)
    for e in {id(e): e for e in ring}.values():
        for k, v in list(vars(e).items()):
            if isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.flags.writeable:
                v += 0.123
        if hasattr(e, 'Length'):
            e.Length = e.Length + 0.1
        e.PassMethod = 'IdentityPass'
    d = snap.diff(now, snap.machine(sc))
    ctx.check(not d, f'changing the given lattice changed the machine: {snap.describe(d)}')
    ctx.note(repeated_elements=repeated, operations=names)
    ctx.sig(repeated, names, ctx.idx)


def copies(ctx):
    rng = ctx.rng
    sc, o = gen.make_sc(rng, dict(split_bends=bool(rng.random() < 0.3), corr_elements=bool(rng.random() < 0.3)), master=bool(rng.random() < 0.5))
    ops(sc, o, rng, 3)
    kind = str(rng.choice(['very_deep_copy', 'very_deep_copy', 'deepcopy']))
    machines = [(sc, 'A')]
    for name in 'BC':
        src = machines[int(rng.integers(len(machines)))][0]
        new = src.very_deep_copy() if kind == 'very_deep_copy' else copy.deepcopy(src)
        d = snap.diff(snap.machine(src), snap.machine(new))
        ctx.check(not d, f'{kind} differs from its origin: {snap.describe(d)}')
        machines.append((new, name))
    log = []
    for _ in range(int(rng.integers(3, 8))):
        i = int(rng.integers(3))
        before = [snap.machine(m) for m, _ in machines]
        m = machines[i][0]
        r = rng.random()
        if r < 0.6:
            what = ops(m, o, rng, int(rng.integers(1, 4)))
        elif r < 0.7:
            what = 'register'
            m.register_bpms(o['bpm'][:3], Offset=1e-3 * np.ones(2))
            m.register_magnets(o['qf'][:2], HCM=1e-4, MagnetOffset=1e-3 * np.ones(3))
        elif r < 0.85:
            what = 'injection'
            m.INJ.Z0[0] += 1e-5
            m.INJ.beamSize[0, 0] += 1e-12
            m.INJ.nTurns = int(rng.integers(1, 5))
            m.SIG.BPM[o['bpm'][0]].Offset *= 1.5
            m.ORD.HCM[:] = np.roll(m.ORD.HCM, 1)
            m.ORD.HCM.sort()
        else:
            what = 'lattices'
            m.RING[int(o['qf'][0])].PolynomB[1] *= 1.01
            m.RING[int(o['qf'][0])].SetPointB[1] *= 1.01
            m.IDEALRING[int(o['qd'][0])].PolynomB[1] *= 1.01
            m.RING.energy = m.RING.energy
        log.append([machines[i][1], what])
        for j, (mm, n) in enumerate(machines):
            if j != i:
                d = snap.diff(before[j], snap.machine(mm))
                ctx.check(not d, f'changing copy {machines[i][1]} by {what} changed {n} ({kind}): {snap.describe(d)}')
    separate(ctx, [], f'after {kind} and {log}', *machines)
    ctx.note(kind=kind, operations=log)
    ctx.sig(kind, log, ctx.idx)


def poke(x):
    """Changes everything inside a caller-held object in place."""
    if isinstance(x, np.ndarray) and x.flags.writeable:
        if x.dtype.kind == 'f':
            x *= -1.5
            x += 0.77
        elif x.dtype.kind == 'i':
            x += 1
    elif isinstance(x, dict):
        for v in x.values():
            poke(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            poke(v)
        if isinstance(x, list):
            for i, v in enumerate(x):
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    x[i] = v + 1
    elif hasattr(x, '__dict__') and not callable(x):
        for v in vars(x).values():
            poke(v)


def caller(ctx):
    """Arguments are neither modified nor kept."""
    rng = ctx.rng
    sc = gen.make_ideal_sc(rng, split_bends=bool(rng.random() < 0.4), corr_elements=bool(rng.random() < 0.4))
    r = sc.RING
    passed = []

    def hold(x):
        passed.append((x, copy.deepcopy(x)))
        return x

    def width(shape, mag=1e-4):
        a = mag * rng.uniform(0.1, 1, shape)
        return hold([a, float(rng.uniform(1, 3))]) if rng.random() < 0.4 else hold(a)

    def elements(a):
        return hold(np.array(a))
    bpm = elements(gen.ords(r, 'BPM'))
    qf, qd, sf = (elements(gen.ords(r, n)) for n in ('QF', 'QD', 'SF'))
    cav = elements(gen.ords(r, 'RFCav'))
    sc.register_bpms(bpm, Offset=width(2), Roll=float(1e-3), CalError=width(2), Noise=hold(1e-6 * np.ones(2)), NoiseCO=hold(1e-7 * np.ones(2)), SumError=0.03)
    cal = np.zeros(3)
    cal[1] = 1e-3
    sc.register_magnets(qf, HCM=1e-3, VCM=1e-3, MagnetOffset=width(3), MagnetRoll=width(3), CalErrorB=hold(cal))
    sc.register_magnets(qd, HCM=1e-3, MagnetOffset=width(3))
    sc.register_magnets(sf, SkewQuad=0.1, MagnetOffset=width(3))
    ba, bb = gen.ords(r, 'BENDa'), gen.ords(r, 'BENDb')
    if len(ba):
        sc.register_magnets(elements(ba), MasterOf=hold(bb.reshape(1, -1).copy()), BendingAngle=1e-4, MagnetOffset=width(3))
    sc.register_cavities(cav, FrequencyOffset=10.0, VoltageOffset=1e3)
    for typ in ('Girder', 'Plinth', 'Section'):
        pair = hold(np.vstack((gen.ords(r, typ + 'Start'), gen.ords(r, typ + 'End'))))
        shape = (2, 3) if rng.random() < 0.5 else (3,)
        roll = np.zeros(3)
        roll[0] = 1e-4
        off = hold([1e-4 * rng.uniform(0.1, 1, shape), 2.0]) if rng.random() < 0.4 else hold(1e-4 * rng.uniform(0.1, 1, shape))
        sc.register_supports(pair, typ, Offset=off, Roll=hold(roll))
    sc.apply_errors()

    def ordinates(a):
        a = rng.permutation(np.asarray(a))[:int(rng.integers(1, len(a) + 1))]
        return hold(a if rng.random() < 0.5 else [int(i) for i in a])

    def values(a, mag):
        v = mag * rng.normal(size=len(a))
        return hold(v if rng.random() < 0.6 else [float(i) for i in v])
    log = []
    for _ in range(int(rng.integers(4, 10))):
        k = int(rng.integers(7))
        log.append(k)
        method = str(rng.choice(['abs', 'rel', 'add']))
        if k == 0:
            q = ordinates(sc.ORD.Magnet[np.isin(sc.ORD.Magnet, np.concatenate((qf, qd)))])
            v = values(q, 1e-3)
            if method != 'add':
                v = hold(1 + np.array(v))
            sc.set_magnet_setpoints(q, v, False, 1, method)
        elif k == 1:
            c = ordinates(sc.ORD.HCM)
            sc.set_cm_setpoints(c, values(c, 1e-4), False, method)
        elif k == 2:
            c = ordinates(sc.ORD.VCM)
            sc.set_cm_setpoints(c, values(c, 1e-2), True, method)
        elif k == 3:
            c = hold(np.array(sc.ORD.RF))
            sc.set_cavity_setpoints(c, values(c, 10.0), 'Frequency', 'add')
        elif k == 4:
            t = hold(1e-4 * rng.normal(size=(int(rng.integers(2, 6)), 2)))
            q = ordinates(qf)
            sc.set_systematic_multipole_errors(q, t, int(rng.integers(0, min(3, t.shape[0]))), bool(rng.random() < 0.5))
            sc.update_magnets()
        elif k == 5:
            t = hold(1e-4 * rng.normal(size=(int(rng.integers(2, 6)), 2)))
            sc.set_random_multipole_errors(ordinates(sf), t)
            sc.update_magnets()
        else:
            sc.apply_errors()
    sc.INJ.nTurns, sc.INJ.nParticles = 1, 1
    bpm_reading(sc, bpm_ords=hold(np.array(sc.ORD.BPM[::-1])))
    s = hold(rng.uniform(0, 50, 7))
    sc.support_offset_and_roll(s)
    sc.get_cm_setpoints(hold(np.array(sc.ORD.HCM)), False)
    z = hold(1e-5 * rng.normal(size=6))
    SCgetModelRM(sc, hold(np.array(sc.ORD.BPM)), hold([np.array(sc.ORD.HCM[:2]), np.array(sc.ORD.VCM[:2])]), Z0=z)
    response_matrix(sc, hold([1e-5 * np.ones(2), 1e-5 * np.ones(1)]), hold(np.array(sc.ORD.BPM)), hold([np.array(sc.ORD.HCM[:2]), np.array(sc.ORD.VCM[:1])]))
    bad = [(x, y) for x, y in passed if snap.diff(snap.freeze(dict(v=y)), snap.freeze(dict(v=x)))]
    ctx.check(not bad, f'an argument was modified: {bad[:2]}')
    lst = parts(sc, 'SC') + arrays([x for x, _ in passed], 'argument')
    sp = split_tables(sc, 'SC')
    share = [(p, q) for p, q in overlaps(lst, sp) if (p[0] == 'argument') != (q[0] == 'argument')]
    ctx.check(not share, f'the machine refers to arguments: {share[:3]}')
    before = snap.machine(sc)
    for x, _ in passed:
        poke(x)
    d = snap.diff(before, snap.machine(sc))
    ctx.check(not d, f'changing passed-in data changed the machine: {snap.describe(d)}')
    ctx.event('arguments held', len(passed))
    ctx.note(operations=log, arguments=len(passed))
    ctx.sig(log, len(passed), ctx.idx)


def returned(ctx):
    """What the machine returns does not give access to its inside."""
    rng = ctx.rng
    sc, o = gen.make_sc(rng, scale=0.3)
    sc.INJ.nTurns = int(rng.integers(1, 3))
    cms = [sc.ORD.HCM[:2], sc.ORD.VCM[:2]]
    hooked = []
    if rng.random() < 0.5:
        def fun(z):
            hooked.append(z)
            return z
        sc.INJ.postFun = fun
    calls = dict(cm=lambda: sc.get_cm_setpoints(sc.ORD.HCM, False), sup=lambda: sc.support_offset_and_roll(np.array([1.0, 2.0])),
                 read=lambda: bpm_reading(sc), err=lambda: bpm_reading(sc, calculate_errors=True), bunch=lambda: generate_bunches(sc),
                 every=lambda: all_elements_reading(sc), trans=lambda: beam_transmission(sc, nTurns=2),
                 rm=lambda: SCgetModelRM(sc, sc.ORD.BPM, cms, useIdealRing=bool(rng.random() < 0.5)),
                 ring=lambda: SCgetModelRING(sc, includeAperture=bool(rng.random() < 0.5)), cod=lambda: SCgetCOD(sc),
                 meas=lambda: response_matrix(sc, 1e-5, sc.ORD.BPM, cms), eta=lambda: SCgetModelDispersion(sc, sc.ORD.BPM, sc.ORD.RF),
                 copy=lambda: sc.very_deep_copy(), cmlist=lambda: [c.copy() for c in sc.ORD.CM])
    ap = np.array([0.02, 0.02])
    for r in (sc.RING, sc.IDEALRING):
        for e in list(r)[1:]:
            e.EApertures = ap.copy()
    names = []
    for k in rng.permutation(list(calls)):
        names.append(str(k))
        res = calls[str(k)]()
        lst = parts(sc, 'SC') + arrays(list(res) if isinstance(res, at.Lattice) else ([res] if not isinstance(res, SimulatedCommissioning) else [list(res.RING), list(res.IDEALRING)]), 'result')
        share = [(p, q) for p, q in overlaps(lst, split_tables(sc, 'SC')) if (p[0] == 'result') != (q[0] == 'result')]
        ctx.check(not share, f'result of {k} refers to the machine: {share[:3]}')
        before = snap.machine(sc)
        poke(list(res) if isinstance(res, at.Lattice) else res)
        poke(hooked)
        d = snap.diff(before, snap.machine(sc))
        ctx.check(not d, f'changing the result of {k} changed the machine: {snap.describe(d)}')
    ctx.note(calls=names)
    ctx.sig(names)


SCENARIOS = dict(creation=Scenario(creation, 40, 600), copies=Scenario(copies, 40, 600), caller=Scenario(caller, 60, 800), returned=Scenario(returned, 24, 300))
