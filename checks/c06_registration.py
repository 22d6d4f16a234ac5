"""C06: registration monitored call by call against a reference model of the registry, the touched elements and the uncertainties."""
import copy
import numpy as np
from vlib import gen, snap
from vlib.common import Scenario, LogCapture
from pySC.core.simulated_commissioning import SimulatedCommissioning

PID = 'C06'
RULE = ('random sequences of registrations (monitors, cavities, magnets of every type, supports; overlapping and unsorted ordinates, '
        'random uncertainty subsets with and without own cutoff, invalid calls) on mini lines and rings; after each call the registry, all '
        'uncertainties and every attribute of every element are compared with the model. Distinct by the sequence of calls.')
ASSUMPTIONS = ['registration happens before errors are applied', 'a support end point keeps uncertainties given separately for it']
BPM = {'Noise': 2, 'NoiseCO': 2, 'Offset': 2, 'Roll': 0, 'CalError': 2, 'SumError': 0}
MAG = {'MagnetOffset': 3, 'MagnetRoll': 3, 'CalErrorA': 2, 'CalErrorB': 2, 'BendingAngle': 0}


def value(rng, n):
    v = rng.uniform(1e-6, 1e-3, n) if n else float(rng.uniform(1e-6, 1e-3))
    return v if rng.random() < 0.7 else [v, int(rng.integers(1, 4))]


class Model:
    """What the registry has to look like."""

    def __init__(self, ring):
        self.design = snap.ring(ring)['elements']
        self.el = copy.deepcopy(self.design)
        self.ords = dict(BPM=set(), RF=set(), Magnet=set(), SkewQuad=set(), HCM=set(), VCM=set())
        self.pairs = dict(Girder=set(), Plinth=set(), Section=set())
        self.sig = dict(BPM={}, RF={}, Magnet={}, Support={})

    def compare(self, ctx, sc, what):
        for k, v in self.ords.items():
            got = np.asarray(sc.ORD[k])
            ctx.check(got.ndim == 1 and got.tolist() == sorted(v), f'{what}: ORD.{k} is {got.tolist()}, expected {sorted(v)}')
        for k, v in self.pairs.items():
            got = [tuple(int(x) for x in c) for c in np.asarray(sc.ORD[k]).T]
            ctx.check(got == sorted(v, key=lambda p: (p[1], p[0])), f'{what}: ORD.{k} pairs {got}, expected {sorted(v)}')
        cm = [np.asarray(x).tolist() for x in sc.ORD.CM]
        ctx.check(cm == [np.asarray(sc.ORD[k]).tolist() for k in ('HCM', 'VCM')], f'{what}: ORD.CM lists {cm}')
        for k, v in self.sig.items():
            got = {int(i): snap.freeze(dict(f)) for i, f in sc.SIG[k].items()}
            d = snap.diff(snap.freeze({i: dict(f) for i, f in v.items()}), got, ('SIG.' + k,))
            ctx.check(not d, f'{what}: uncertainties differ (expected -> found): {snap.describe(d)}')
        now = snap.ring(sc.RING)['elements']
        d = snap.diff(self.el, now, ('element',))
        ctx.check(not d, f'{what}: element attributes differ (expected -> found): {snap.describe(d)}')
        ctx.event('elements compared', len(now))


def sequence(ctx):
    rng = ctx.rng
    use_ring = rng.random() < 0.4
    if use_ring:
        ring = gen.make_ring(rng, n_cells=6, kf=0.7, kd=0.77, corr_elements=bool(rng.random() < 0.5))
        o = {n: gen.ords(ring, n) for n in ('BPM', 'RFCav', 'QF', 'QD', 'SF', 'SD', 'BEND', 'COR')}
        mags = [int(i) for n in ('QF', 'QD', 'SF', 'SD', 'BEND', 'COR') for i in o[n]]
        bpms, cavs, bends = o['BPM'].tolist(), o['RFCav'].tolist(), [int(i) for i in o['BEND']]
        sup = {t: list(zip(gen.ords(ring, t + 'Start').tolist(), gen.ords(ring, t + 'End').tolist()))
               for t in ('Girder', 'Plinth', 'Section')}
    else:
        ring, kinds = gen.mini_line(rng)
        mags = sorted(kinds)
        bends = [i for i, k in kinds.items() if k in ('cf', 'bend')]
        bpms = gen.ords(ring, 'BPM0', 'BPM1').tolist()
        cavs = gen.ords(ring, 'CAV').tolist()
        dr = gen.ords(ring, 'D').tolist()
        sup = {t: [tuple(int(x) for x in sorted(rng.choice(dr, 2, replace=False))) for _ in range(3)] for t in ('Girder', 'Plinth', 'Section')}
        if rng.random() < 0.3:
            sup['Girder'].append((dr[-1], dr[0]))
    sc = SimulatedCommissioning(ring)
    m = Model(ring)
    m.compare(ctx, sc, 'new machine')
    ends = {t: False for t in sup}
    ops = []

    def pick(pool, kmax=5):
        n = int(rng.integers(1, min(kmax, len(pool)) + 1))
        return [int(i) for i in rng.choice(pool, n, replace=False)]

    for step in range(int(rng.integers(4, 11))):
        k = str(rng.choice(['bpm', 'cav', 'mag', 'mag', 'mag', 'sup', 'sup', 'bad']))
        if k == 'bpm':
            sel = pick(bpms)
            if rng.random() < 0.2:
                sel = sel + sel[:1]
            kw = {f: value(rng, n) for f, n in BPM.items() if rng.random() < 0.4}
            sc.register_bpms(np.array(sel), **copy.deepcopy(kw))
            for i in sel:
                m.ords['BPM'].add(i)
                m.sig['BPM'].setdefault(i, {}).update(kw)
                m.el[i].update(Noise=np.zeros(2), NoiseCO=np.zeros(2), Offset=np.zeros(2), SupportOffset=np.zeros(2), Roll=0,
                               SupportRoll=0, CalError=np.zeros(2), SumError=0)
        elif k == 'cav':
            sel = pick(cavs)
            kw = {f'{p}{e}': value(rng, 0) for p in ('Voltage', 'Frequency', 'TimeLag') for e in ('Offset', 'CalError') if rng.random() < 0.4}
            sc.register_cavities(np.array(sel), **copy.deepcopy(kw))
            for i in sel:
                m.ords['RF'].add(i)
                m.sig['RF'].setdefault(i, {}).update(kw)
                for p in ('Voltage', 'Frequency', 'TimeLag'):
                    m.el[i].update({p + 'SetPoint': getattr(ring[i], p), p + 'Offset': 0, p + 'CalError': 0})
        elif k == 'mag':
            sel = pick(mags)
            kw = {f: value(rng, n) for f, n in MAG.items() if rng.random() < 0.35}
            typ = {}
            if rng.random() < 0.4:
                typ['HCM'] = float(rng.uniform(1e-4, 1e-2))
            if rng.random() < 0.4:
                typ['VCM'] = float(rng.uniform(1e-4, 1e-2))
            if rng.random() < 0.3:
                typ['SkewQuad'] = float(rng.uniform(0.01, 1))
            if rng.random() < 0.2:
                sel = pick(bends)
                typ['CF'] = 1
            if rng.random() < 0.25 and len(mags) > len(sel) + 2:
                others = [i for i in mags if i not in sel]
                nrow = int(rng.integers(1, 3))
                if len(others) >= nrow * len(sel):
                    typ['MasterOf'] = np.array(rng.choice(others, (nrow, len(sel)), replace=False), dtype=int)
            sc.register_magnets(np.array(sel), **copy.deepcopy(kw), **copy.deepcopy(typ))
            for j, i in enumerate(sel):
                m.ords['Magnet'].add(i)
                m.sig['Magnet'].setdefault(i, {}).update(kw)
                pa, pb = np.array(ring[i].PolynomA), np.array(ring[i].PolynomB)
                m.el[i].update(NomPolynomA=pa, NomPolynomB=pb, SetPointA=pa, SetPointB=pb, CalErrorA=np.zeros(len(pa)),
                               CalErrorB=np.zeros(len(pb)), MagnetOffset=np.zeros(3), SupportOffset=np.zeros(3),
                               MagnetRoll=np.zeros(3), SupportRoll=np.zeros(3), T1=np.zeros(6), T2=np.zeros(6))
                if 'CF' in typ:
                    m.el[i]['CombinedFunction'] = True
                lim = m.el[i].get('CMlimit', np.zeros(2)).copy()
                for c, f in enumerate(('HCM', 'VCM')):
                    if f in typ:
                        m.ords[f].add(i)
                        lim[c] = typ[f]
                        m.el[i]['CMlimit'] = lim
                if 'SkewQuad' in typ:
                    m.ords['SkewQuad'].add(i)
                    m.el[i]['SkewQuadLimit'] = typ['SkewQuad']
                if 'MasterOf' in typ:
                    m.el[i]['MasterOf'] = typ['MasterOf'][:, j]
        elif k == 'sup':
            t = str(rng.choice(list(sup)))
            idx = rng.permutation(len(sup[t]))[:int(rng.integers(1, len(sup[t]) + 1))]
            pairs = [sup[t][i] for i in idx]
            kw = {}
            for f in ('Offset', 'Roll'):
                if rng.random() < 0.6:
                    n = rng.uniform(1e-6, 1e-4, 3) if rng.random() < 0.6 else rng.uniform(1e-6, 1e-4, (2, 3))
                    kw[f] = n if rng.random() < 0.7 else [n, 2]
            with LogCapture() as log:
                sc.register_supports(np.array(pairs, dtype=int).T, t, **copy.deepcopy(kw))
            up = sum(b < a for a, b in pairs)
            warn = [w for w in log.messages('WARNING') if 'upstream' in w]
            ctx.check(len(warn) == (1 if up else 0), f'{up} of the {t} pairs run backwards, warnings: {warn}')
            for a, b in pairs:
                m.pairs[t].add((a, b))
                for i in (a, b):
                    m.el[i].update({t + 'Offset': np.zeros(3), t + 'Roll': np.zeros(3)})
                    m.sig['Support'].setdefault(i, {})
            for a, b in pairs:
                for f, v in kw.items():
                    lst = isinstance(v, list)
                    arr = v[0] if lst else v
                    rows = [arr] if arr.ndim == 1 else [arr[0], arr[1]]
                    for i, row in zip((a, b), rows):
                        m.sig['Support'][i][t + f] = [row, v[1]] if lst else row
        else:
            before = snap.machine(sc)
            j = int(rng.integers(6))
            tag, exc = [
                ('unknown monitor option', lambda: sc.register_bpms(np.array(bpms[:1]), Nose=np.ones(2))),
                ('unknown cavity option', lambda: sc.register_cavities(np.array(cavs[:1]), VoltageError=1.)),
                ('unknown magnet option', lambda: sc.register_magnets(np.array(mags[:1]), HCM=1., Offset=np.ones(3))),
                ('unknown support option', lambda: sc.register_supports(np.array(sup['Girder']).T, 'Girder', Pitch=np.ones(3))),
                ('unknown support type', lambda: sc.register_supports(np.array(sup['Girder']).T, 'Table', Offset=np.ones(3))),
                ('support ordinates of wrong shape', lambda: sc.register_supports(np.array(sup['Girder'] + sup['Girder'][:1]), 'Girder',
                                                                                   Offset=np.ones(3))),
            ][j]
            if j == 5 and len(sup['Girder']) + 1 == 2:
                continue
            ctx.raises(ValueError, exc, tag)
            d = snap.diff(before, snap.machine(sc))
            ctx.check(not d, f'rejected call ({tag}) changed the machine: {snap.describe(d)}')
            ops.append('rejected ' + tag)
            continue
        ops.append(f'{k} {sel if k != "sup" else pairs} {sorted(kw)}')
        m.compare(ctx, sc, ops[-1])
    d = snap.diff(m.design, snap.ring(sc.IDEALRING)['elements'])
    ctx.check(not d, f'design lattice changed: {snap.describe(d)}')
    d = snap.diff(m.design, snap.ring(ring)['elements'])
    ctx.check(not d, f'input lattice changed: {snap.describe(d)}')
    # tracking of the merely registered machine is that of the design lattice
    import at
    z = rng.normal(0, 1e-5, (6, 3))
    a = at.lattice_track(sc.RING.copy(), z.copy(), nturns=1)[0]
    b = at.lattice_track(ring.copy(), z.copy(), nturns=1)[0]
    ctx.close(a, b, 'tracking after registration', rtol=1e-12, atol=1e-15)
    ctx.note(ring=use_ring, ops=ops)
    ctx.sig(use_ring, ops)


SCENARIOS = dict(sequence=Scenario(sequence, 880, 3000))
