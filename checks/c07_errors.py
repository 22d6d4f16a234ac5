"""C07: error draws observed after each application: support of the distribution, moments, independence, untouched fields, replacement."""
import copy
import math
import numpy as np
from vlib import gen, snap
from vlib.common import Scenario
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.utils import sc_tools

PID = 'C07'
RULE = ('random registrations with random subsets of uncertainty fields, widths (also zero) and cutoffs; after each application every field '
        'of every element is checked against width times cutoff or against being unchanged, applications are repeated from recorded '
        'generator states to show that nothing of an earlier application stays, and large pools of normalised draws are tested for mean, '
        'variance, correlation and distinctness with six-sigma thresholds. Distinct by registration and cutoffs.')
ASSUMPTIONS = ['registration happens before errors are applied', 'the circumference scales relative to its present value']
MAGF = {'MagnetOffset': 3, 'MagnetRoll': 3, 'BendingAngle': 0}
BPMF = {'Offset': 2, 'Roll': 0, 'CalError': 2, 'SumError': 0}
NOISE = ('Noise', 'NoiseCO')


def uncertainty(rng, n, zero=True):
    v = rng.uniform(1e-6, 1e-4, n) if n else float(rng.uniform(1e-6, 1e-4))
    if zero and rng.random() < 0.2:
        v = v * 0
    elif zero and n and rng.random() < 0.3:
        v[int(rng.integers(n))] = 0.0
    return v if rng.random() < 0.65 else [v, float(rng.choice([0.5, 1.0, 1.5]))]


def split(u, nsig):
    return (np.asarray(u[0], float), abs(u[1])) if isinstance(u, list) else (np.asarray(u, float), nsig)


def register(ctx, sc, ring, o):
    """Registers random uncertainties and returns {(element, element field): uncertainty}."""
    rng = ctx.rng
    reg = {}
    mags = [o[k] for k in ('QF', 'QD', 'SF', 'SD', 'BEND')]
    for grp in mags:
        for part in np.array_split(rng.permutation(grp), int(rng.integers(1, 3))):
            kw = {f: uncertainty(rng, n) for f, n in MAGF.items()
                  if rng.random() < 0.6 and (f != 'BendingAngle' or grp[0] in o['BEND'])}
            for ab in 'AB':
                if rng.random() < 0.5:
                    kw['CalError' + ab] = uncertainty(rng, int(rng.integers(1, 3)))
            sc.register_magnets(part, **copy.deepcopy(kw))
            for i in part:
                reg.update({(int(i), 'BendingAngleError' if f == 'BendingAngle' else f): v for f, v in kw.items()})
    for part in np.array_split(rng.permutation(o['BPM']), int(rng.integers(1, 3))):
        kw = {f: uncertainty(rng, n) for f, n in BPMF.items() if rng.random() < 0.7}
        kw.update({f: rng.uniform(1e-6, 1e-4, 2) for f in NOISE if rng.random() < 0.5})
        sc.register_bpms(part, **copy.deepcopy(kw))
        for i in part:
            reg.update({(int(i), f): v for f, v in kw.items()})
    kw = {p + e: uncertainty(rng, 0) for p in ('Voltage', 'Frequency', 'TimeLag') for e in ('Offset', 'CalError') if rng.random() < 0.6}
    sc.register_cavities(o['RFCav'], **copy.deepcopy(kw))
    for i in o['RFCav']:
        reg.update({(int(i), f): v for f, v in kw.items()})
    return reg


def world(ctx):
    ring = gen.make_ring(ctx.rng, n_cells=6, kf=0.7, kd=0.77)
    o = {n: gen.ords(ring, n) for n in ('QF', 'QD', 'SF', 'SD', 'BEND', 'BPM', 'RFCav')}
    return ring, SimulatedCommissioning(ring), o


def draws(ctx):
    """Bounds, zeros, untouched fields, injection, circumference, replacement of earlier errors."""
    rng = ctx.rng
    ring, sc, o = world(ctx)
    reg = register(ctx, sc, ring, o)
    sc.SIG.staticInjectionZ = rng.uniform(0, 1e-3, 6) * (rng.random(6) < 0.8)
    sc.SIG.randomInjectionZ = rng.uniform(0, 1e-3, 6)
    sc.INJ.Z0ideal = rng.normal(0, 1e-3, 6)
    circ = bool(rng.random() < 0.4)
    if circ:
        sc.SIG.Circumference = 1e-4
    base = snap.machine(sc)
    nsig = float(rng.choice([0.3, 1, 2, 3]))
    seed = int(rng.integers(2 ** 31))
    twin = sc.very_deep_copy()
    np.random.seed(seed)
    sc.apply_errors(nsig)
    now = snap.machine(sc)
    untouched = snap.diff(base, now)
    allowed = {(i, f) for i, f in reg}
    magnets, bpms, cavs = set(int(i) for i in sc.ORD.Magnet), set(int(i) for i in sc.ORD.BPM), set(int(i) for i in sc.ORD.RF)
    derived = {'PolynomA', 'PolynomB', 'MaxOrder', 'T1', 'T2', 'R1', 'R2', 'K', 'H'}
    for p, a, b in untouched:
        if p[0] == 'RING' and p[1] == 'elements':
            i, f = p[2], p[3]
            if (i, f) in allowed:
                continue
            if i in magnets and (f in derived or f.startswith('Polynom')):
                continue
            if i in cavs and f in ('Voltage', 'Frequency', 'TimeLag'):
                continue
            if circ and f == 'Length' and base['RING']['elements'][i]['PassMethod'] == 'DriftPass':
                continue
            ctx.fail(f'field without uncertainty changed: element {i} {f}: {a} -> {b}')
        elif p[0] == 'INJ' and p[1] in ('Z0', 'randomInjectionZ'):
            continue
        else:
            ctx.fail(f'applying errors changed {p}: {a} -> {b}')
    for (i, f), u in reg.items():
        got = np.atleast_1d(np.asarray(getattr(sc.RING[i], f), float))
        if f in NOISE:
            ctx.close(got, u, f'monitor {i} {f}', rtol=0, atol=0)
            continue
        sig, cut = split(u, nsig)
        sig = np.atleast_1d(sig)
        if f.startswith('CalError') and i in magnets:
            ctx.check(len(got) == len(ring[i].PolynomB), f'magnet {i} {f} has length {len(got)}')
            ctx.check(not np.any(got[len(sig):]), f'magnet {i} {f} beyond the registered orders: {got}')
            got = got[:len(sig)]
        ctx.check(got.shape == sig.shape, f'element {i} {f}: shape {got.shape}, uncertainty {sig.shape}')
        ctx.check(np.all(np.abs(got) <= cut * sig * (1 + 1e-12)), f'element {i} {f}: {got} beyond {cut} sigma of {sig}')
        ctx.check(np.all((got != 0) == (sig != 0)), f'element {i} {f}: {got} for width {sig}')
    dz = sc.INJ.Z0 - sc.INJ.Z0ideal
    ctx.check(np.all(np.abs(dz) <= nsig * sc.SIG.staticInjectionZ * (1 + 1e-9) + 1e-18), f'static injection error {dz}')
    ctx.check(np.all((np.abs(dz) > 1e-15) == (sc.SIG.staticInjectionZ != 0)), f'static injection error {dz} for {sc.SIG.staticInjectionZ}')
    ctx.close(sc.INJ.randomInjectionZ, sc.SIG.randomInjectionZ, 'shot-to-shot injection width', rtol=0, atol=0)
    c0, c1 = ring.get_s_pos(len(ring))[0], sc.RING.get_s_pos(len(ring))[0]
    rel = c1 / c0 - 1
    ctx.check(abs(rel) <= (nsig * 1e-4 if circ else 0) + 1e-13, f'circumference changed by {rel}')
    if circ:
        ctx.check(abs(rel) > 1e-13, 'no circumference error')
    # derived quantities
    for i in magnets:
        e = sc.RING[i]
        pb = np.array(e.SetPointB) * (1 + np.array(e.CalErrorB))
        if getattr(e, 'BendingAngle', 0):
            pb[0] += getattr(e, 'BendingAngleError', 0) * e.BendingAngle / e.Length
        ctx.close(e.PolynomB, pb, f'magnet {i} field after errors', rtol=1e-12, atol=1e-16)
        ctx.close(e.PolynomA, np.array(e.SetPointA) * (1 + np.array(e.CalErrorA)), f'magnet {i} skew field', rtol=1e-12, atol=1e-16)
        fresh = sc_tools.update_transformation(copy.deepcopy(e))
        for t in ('T1', 'T2', 'R1', 'R2'):
            ctx.close(getattr(e, t), getattr(fresh, t), f'magnet {i} {t} after errors', rtol=1e-12, atol=1e-16)
    for i in cavs:
        e = sc.RING[i]
        for p in ('Voltage', 'Frequency', 'TimeLag'):
            ctx.close(getattr(e, p), getattr(e, p + 'SetPoint') * (1 + getattr(e, p + 'CalError')) + getattr(e, p + 'Offset'),
                      f'cavity {p} after errors', rtol=1e-13)
    # a new application replaces the errors: same generator state, same result whatever was applied before
    if not circ:
        np.random.seed(seed + 1 if seed else 7)
        twin.apply_errors(float(rng.choice([1, 2, 3])))
        if rng.random() < 0.5:
            twin.apply_errors()
        np.random.seed(seed)
        twin.apply_errors(nsig)
        d = snap.diff(now, snap.machine(twin), rtol=1e-13, atol=1e-18)
        ctx.check(not d, f'errors depend on an earlier application: {snap.describe(d)}')
    np.random.seed((seed + 12345) % 2 ** 31)
    sc.apply_errors(nsig)
    for (i, f), u in reg.items():
        a = np.atleast_1d(np.asarray(now['RING']['elements'][i][f], float))
        b = np.atleast_1d(np.asarray(getattr(sc.RING[i], f), float))
        if f not in NOISE:
            ctx.check(np.all((a != b) | (a == 0)), f'element {i} {f} was not drawn again: {a} -> {b}')
    ctx.event('fields checked', len(reg))
    ctx.note(fields=len(reg), nsigmas=nsig, circumference=circ)
    ctx.sig(sorted((i, f, str(u)) for (i, f), u in reg.items())[:20], nsig, circ)


def supports(ctx):
    """Start and end points, slopes, explicit pitch and yaw."""
    rng = ctx.rng
    ring, sc, o = world(ctx)
    sc.register_magnets(o['QF'])
    sc.register_bpms(o['BPM'])
    nsig = float(rng.choice([1, 2, 3]))
    s = ring.get_s_pos(range(len(ring) + 1))
    reg = {}
    types = [t for t in ('Girder', 'Plinth', 'Section') if rng.random() < 0.7] or ['Girder']
    wrap = bool(rng.random() < 0.3)
    for t in types:
        st, en = gen.ords(ring, t + 'Start'), gen.ords(ring, t + 'End')
        pairs = np.vstack((st, en))
        if wrap and t != 'Girder':
            pairs[0] = np.roll(pairs[0], 1)     # supports from one cell to the next, the last crosses the end of the lattice
        if t != 'Girder' and rng.random() < 0.5:    # supports of different types may begin and end at the same place
            g0, g1 = gen.ords(ring, 'GirderStart'), gen.ords(ring, 'GirderEnd')
            for k in range(pairs.shape[1]):
                at0, at1 = g0[g0 > pairs[0, k]], g1[g1 < pairs[1, k]]
                if len(at0) and rng.random() < 0.8 and s[at0[0]] < s[pairs[1, k]] - 0.1:
                    pairs[0, k] = at0[0]
                elif len(at1) and s[at1[-1]] > s[pairs[0, k]] + 0.1:
                    pairs[1, k] = at1[-1]
            ctx.event('supports sharing an end with another type')
        n = pairs.shape[1]
        cutlist = bool(rng.random() < 0.3)
        both = bool(rng.random() < 0.4)
        off = rng.uniform(1e-6, 1e-4, (2, 3) if both else 3) if rng.random() < 0.85 else None
        roll = rng.uniform(1e-6, 1e-4, 3) * (rng.random(3) < 0.5) if rng.random() < 0.75 else None
        if both and off is not None and roll is not None:
            roll[1:] = 0
        kw = {}
        if off is not None:
            kw['Offset'] = [off, 1] if cutlist else off
        if roll is not None:
            kw['Roll'] = [roll, 1] if cutlist else roll
        sel = pairs[:, :int(rng.integers(1, n + 1))]
        sc.register_supports(sel, t, **copy.deepcopy(kw))
        reg[t] = (sel, off, roll, 1 if cutlist else nsig, both)
    seed = int(rng.integers(2 ** 31))
    twin = sc.very_deep_copy()
    if rng.random() < 0.7:
        sc.apply_errors(3)
    before = snap.machine(sc)
    np.random.seed(seed)
    sc.apply_errors(nsig)
    np.random.seed(seed)
    twin.apply_errors(nsig)
    for r1, r2 in ((sc, twin),):
        d = snap.diff(snap.machine(r1), snap.machine(r2), rtol=1e-13, atol=1e-18)
        ctx.check(not d, f'support errors depend on an earlier application: {snap.describe(d)}')
    n_draw = []
    touched = set()
    for t, (sel, off, roll, cut, both) in reg.items():
        for a, b in sel.T:
            touched |= {(int(a), t + 'Offset'), (int(a), t + 'Roll'), (int(b), t + 'Offset'), (int(b), t + 'Roll')}
            o0, o1 = getattr(sc.RING[a], t + 'Offset'), getattr(sc.RING[b], t + 'Offset')
            r0 = getattr(sc.RING[a], t + 'Roll')
            length = (s[b] - s[a]) % s[-1]
            w0 = np.zeros(3) if off is None else (off[0] if both else off)
            w1 = np.zeros(3) if off is None else (off[1] if both else off)
            wr = np.zeros(3) if roll is None else roll
            ctx.check(abs(r0[0]) <= cut * wr[0] * (1 + 1e-12) and (r0[0] != 0) == (wr[0] != 0), f'{t} roll {r0[0]} for width {wr[0]}')
            for plane, k, sign in ((1, 1, -1), (0, 2, 1)):   # a positive pitch lowers the downstream end, a positive yaw moves it outwards
                if wr[k] != 0:
                    ctx.check(0 < abs(r0[k]) <= cut * wr[k] * (1 + 1e-12), f'{t} angle {k}: {r0[k]} for width {wr[k]}')
                    ctx.close(o1[plane] - o0[plane], sign * r0[k] * length, f'{t} end points follow the given angle {k}', rtol=1e-9, atol=1e-18)
                    mid = (o0[plane] + o1[plane]) / 2
                    ctx.check(abs(mid) <= cut * w0[plane] * (1 + 1e-9) + 1e-17, f'{t} is tilted around a point off its centre: {mid}')
                    n_draw += [mid / w0[plane]] if w0[plane] else []
                else:
                    ctx.check(abs(o0[plane]) <= cut * w0[plane] * (1 + 1e-12) and abs(o1[plane]) <= cut * w1[plane] * (1 + 1e-12),
                              f'{t} offsets {o0}, {o1} for widths {w0}, {w1}')
                    ctx.close(r0[k], sign * (o1[plane] - o0[plane]) / length, f'{t} angle {k} is the slope of its end points', rtol=1e-9, atol=1e-18)
                    if not both:
                        ctx.close(o1[plane], o0[plane], f'{t} end point moves with its start point', rtol=0, atol=0)
                    elif off is not None:
                        ctx.check(o0[plane] / w0[plane] != o1[plane] / w1[plane], f'{t} end point has no draw of its own')
                    n_draw += [o0[plane] / w0[plane]] if w0[plane] else []
                    n_draw += [o1[plane] / w1[plane]] if both and w1[plane] else []
            ctx.check(abs(o0[2]) <= cut * w0[2] * (1 + 1e-12), f'{t} longitudinal offset {o0[2]} for {w0[2]}')
            if not both:
                ctx.close(o1[2], o0[2], f'{t} longitudinal end offset', rtol=0, atol=0)
            if off is not None:
                ctx.check(o0[0] != 0 and o0[1] != 0 and o0[2] != 0, f'{t} offset was not drawn')
            n_draw += [r0[0] / wr[0]] if wr[0] else []
            ctx.event('supports checked')
    u = np.round(n_draw, 12)
    ctx.check(len(np.unique(u)) == len(u), 'two support errors share one draw')
    for p, x, y in snap.diff(before['RING'], snap.ring(sc.RING)):
        i, f = p[1], p[2]
        ctx.check((i, f) in touched or f in ('T1', 'T2', 'R1', 'R2', 'SupportOffset', 'SupportRoll', 'MaxOrder'),
                  f'applying support errors changed element {i} {f}: {x} -> {y}')
    ctx.note(types=types, wrap=wrap, settings={t: dict(n=r[0].shape[1], offset=r[1], roll=r[2], both=r[4]) for t, r in reg.items()})
    ctx.sig(types, wrap, [str(r) for r in reg.values()])


def trunc_var(c):
    return 1 - 2 * c * math.exp(-c * c / 2) / math.sqrt(2 * math.pi) / math.erf(c / math.sqrt(2))


def moments(ctx, pools, what, cuts):
    """pools: {name: array of normalised draws}; six-sigma tests of mean, variance, sign symmetry and pairwise correlation."""
    names = sorted(pools)
    for k in names:
        x, c = np.asarray(pools[k]), cuts[k]
        n, v = len(x), trunc_var(cuts[k])
        ctx.check(np.all(np.abs(x) <= c * (1 + 1e-9)), f'{what} {k}: {np.max(np.abs(x))} beyond the cutoff {c}')
        ctx.check(abs(np.mean(x)) < 6 * math.sqrt(v / n), f'{what} {k}: mean {np.mean(x)} of {n} draws')
        ctx.check(abs(np.mean(x ** 2) / v - 1) < 6 * math.sqrt(2 / n), f'{what} {k}: variance {np.mean(x ** 2)} of {n} draws, expected {v}')
        ctx.check(abs(np.mean(x > 0) - 0.5) < 3 / math.sqrt(n), f'{what} {k}: {np.mean(x > 0)} of {n} draws are positive')
        ctx.check(np.max(np.abs(x)) > 0.8 * c or n < 200 or c > 2.5, f'{what} {k}: range {np.max(np.abs(x))} for cutoff {c}')
        ctx.event('draws pooled', n)
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            x, y = pools[a], pools[b]
            if len(x) == len(y):
                r = np.mean(np.asarray(x) * y) / math.sqrt(trunc_var(cuts[a]) * trunc_var(cuts[b]))
                ctx.check(abs(r) < 7 / math.sqrt(len(x)), f'{what}: {a} and {b} are correlated, {r} over {len(x)} draws')


def statistics(ctx):
    """Pools of draws of every field and component over many applications."""
    rng = ctx.rng
    ring, sc, o = world(ctx)
    nsig = float(rng.choice([1, 1.5, 2, 3]))
    own = {}

    def u(n, key):
        v = rng.uniform(1e-6, 1e-4, n) if n else float(rng.uniform(1e-6, 1e-4))
        if rng.random() < 0.3:
            own[key] = float(rng.choice([0.7, 1.2, 2.5]))
            return [v, own[key]]
        return v
    mkw = {f: u(n, f) for f, n in dict(MagnetOffset=3, MagnetRoll=3, CalErrorA=2, CalErrorB=2).items()}
    bkw = {f: u(n, 'bpm' + f) for f, n in BPMF.items()}
    mag = np.concatenate((o['QF'], o['QD'], o['SF'], o['SD']))
    sc.register_magnets(mag, **mkw)
    sc.register_magnets(o['BEND'], BendingAngle=1e-4)
    sc.register_bpms(o['BPM'], **bkw)
    cw = {p + e: u(0, p + e) for p in ('Voltage', 'Frequency', 'TimeLag') for e in ('Offset', 'CalError')}
    sc.register_cavities(o['RFCav'], **cw)
    gir = np.vstack((gen.ords(ring, 'GirderStart'), gen.ords(ring, 'GirderEnd')))
    sc.register_supports(gir, 'Girder', Offset=np.array([[1e-5, 2e-5, 3e-5], [2e-5, 1e-5, 1e-5]]), Roll=np.array([1e-5, 0, 0]))
    sc.SIG.staticInjectionZ = rng.uniform(1e-5, 1e-3, 6)
    sc.SIG.Circumference = 1e-9
    pools, cuts = {}, {}

    def put(key, val, c):
        pools.setdefault(key, []).extend(np.atleast_1d(val).tolist())
        cuts[key] = c
    reps = 60 if ctx.thorough else 25
    length = ring.get_s_pos(len(ring))[0]
    rare = {}
    for _ in range(reps):
        sc.apply_errors(nsig)
        allv = []
        for f, w in mkw.items():
            sg, c = split(w, nsig)
            x = np.array([np.atleast_1d(getattr(sc.RING[i], f))[:len(sg)] / sg for i in mag])
            for k in range(x.shape[1]):
                put(f'{f}[{k}]', x[:, k], c)
            allv += x.ravel().tolist()
        for f, w in bkw.items():
            sg, c = split(w, nsig)
            x = np.array([np.atleast_1d(getattr(sc.RING[i], f)) / sg for i in o['BPM']])
            for k in range(x.shape[1]):
                put(f'monitor {f}[{k}]', x[:, k], c)
            allv += x.ravel().tolist()
        x = np.array([sc.RING[i].BendingAngleError / 1e-4 for i in o['BEND']])
        put('BendingAngle', x, nsig)
        allv += x.tolist()
        for e, row in (('start', gir[0]), ('end', gir[1])):
            w = np.array([1e-5, 2e-5, 3e-5]) if e == 'start' else np.array([2e-5, 1e-5, 1e-5])
            x = np.array([sc.RING[i].GirderOffset / w for i in row])
            for k in range(3):
                put(f'girder {e}[{k}]', x[:, k], nsig)
            allv += x.ravel().tolist()
        x = np.array([sc.RING[i].GirderRoll[0] / 1e-5 for i in gir[0]])
        put('girder roll', x, nsig)
        allv += x.tolist()
        for f, w in cw.items():
            sg, c = split(w, nsig)
            rare.setdefault((f, c), []).append(float(getattr(sc.RING[o['RFCav'][0]], f) / sg))
            allv.append(rare[(f, c)][-1])
        for k, v in enumerate(((sc.INJ.Z0 - sc.INJ.Z0ideal) / sc.SIG.staticInjectionZ).tolist()):
            rare.setdefault((f'injection {k}', nsig), []).append(v)
        allv += ((sc.INJ.Z0 - sc.INJ.Z0ideal) / sc.SIG.staticInjectionZ).tolist()
        allv = np.round(allv, 13)
        ctx.check(len(np.unique(allv)) == len(allv), 'two errors share one draw')
    moments(ctx, {k: np.array(v) for k, v in pools.items()}, 'errors', cuts)
    for (f, c), v in rare.items():
        v = np.array(v)
        ctx.check(np.all(np.abs(v) <= c * (1 + 1e-6)), f'{f}: {np.max(np.abs(v))} sigmas')
        ctx.check(len(np.unique(np.round(v, 12))) == len(v), f'{f}: same value in two applications')
        ctx.check(np.any(v > 0) and np.any(v < 0), f'{f}: never changes sign in {len(v)} applications')
    r = np.array([v for (f, c), w in rare.items() if c == nsig for v in w])
    if len(r) > 100:
        moments(ctx, dict(single=r), 'cavity and injection errors', dict(single=nsig))
    ctx.note(nsigmas=nsig, own=own, applications=reps, pools=len(pools))
    ctx.sig(nsig, own)


def randnc(ctx):
    rng = ctx.rng
    c = float(rng.choice([0.2, 0.5, 1, 2, 3, 5])) * (1 if rng.random() < 0.8 else -1)
    for _ in range(6):
        shape = tuple(int(x) for x in rng.integers(1, 5, int(rng.integers(1, 4))))
        x = sc_tools.randnc(c, shape)
        ctx.check(np.shape(x) == shape, f'shape {np.shape(x)}, requested {shape}')
        ctx.check(np.all(np.abs(x) <= abs(c)), f'{x} beyond {c}')
    x = sc_tools.randnc(c, ())
    ctx.check(np.shape(x) == () and abs(x) <= abs(c), f'scalar request gave {x}')
    ctx.check(np.shape(sc_tools.randnc(c)) == (1,), 'default shape')
    x = np.array([sc_tools.randnc() for _ in range(200)])
    ctx.check(np.all(np.abs(x) <= 2) and np.any(np.abs(x) > 1.2), 'default cutoff is two sigmas')
    ctx.raises(ValueError, lambda: sc_tools.randnc(c, (2, -1)), 'negative shape')
    n = 40000 if ctx.thorough else 8000
    moments(ctx, {str(k): sc_tools.randnc(c, (n,)) for k in range(3)}, 'randnc', {str(k): abs(c) for k in range(3)})
    x = np.sort(sc_tools.randnc(c, (n,)))
    erf = np.vectorize(math.erf)
    cdf = (erf(x / math.sqrt(2)) / math.erf(abs(c) / math.sqrt(2)) + 1) / 2
    ks = np.max(np.abs(cdf - (np.arange(n) + 0.5) / n))
    ctx.check(ks < 3.2 / math.sqrt(n), f'distribution deviates from the truncated normal by {ks}')
    ctx.note(cutoff=c, draws=4 * n)
    ctx.sig(c, ctx.idx)


SCENARIOS = dict(draws=Scenario(draws, 160, 1500), supports=Scenario(supports, 200, 2000), statistics=Scenario(statistics, 20, 120),
                 randnc=Scenario(randnc, 32, 200))
