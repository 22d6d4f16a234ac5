"""C01: online checker of the magnet field law after every operation of random histories."""
import numpy as np
from vlib import gen, snap
from vlib.common import Scenario
from pySC.core.simulated_commissioning import SimulatedCommissioning

PID = 'C01'
RULE = ('random lines with every magnet kind (combined-function, plain, split bends, quadrupoles, sextupoles, thin correctors; 1-5 '
        'multipole terms), random uncertainties, then a random history of error applications, multipole tables, setpoint operations and '
        'updates; after every step an independent field model is compared with the fields of every magnet. A case is non-trivial when '
        'at least one field differs from design; distinct by kinds, tables and operation sequence.')
ASSUMPTIONS = ['multipole tables become effective at the next field update, as in the interface (assignment alone does not update)']


class Model:
    """Independent field model: keeps its own tables, reads setpoints and drawn errors from the elements."""

    def __init__(self, ring, kinds):
        self.ring0, self.kinds = ring, kinds
        self.nom = {i: (np.array(ring[i].PolynomB, dtype=float), np.array(ring[i].PolynomA, dtype=float)) for i in kinds}
        self.tables = {i: {} for i in kinds}  # (source, order) -> N x 2 (columns B, A)
        self.cf = set()
        self.children = {}

    def master(self, i):
        for m, ch in self.children.items():
            if i in ch:
                return m
        return i

    def fields(self, sc, i):
        m = self.master(i)
        src, tgt = sc.RING[m], sc.RING[i]
        act = {}
        for ab in 'AB':
            sp = np.array(getattr(src, 'SetPoint' + ab), dtype=float)
            cal = np.zeros(len(sp))
            c = np.atleast_1d(np.array(getattr(src, 'CalError' + ab), dtype=float))
            cal[:len(c)] = c
            act[ab] = sp * (1 + cal)
        out = {}
        for k, ab in enumerate('BA'):
            terms = [act[ab]]
            off = getattr(tgt, f'Polynom{ab}Offset', None)
            if off is not None:
                terms.append(np.array(off, dtype=float))
            for (source, order), tab in self.tables[i].items():
                terms.append(act[source][order] * tab[:, k])
            n = max(len(t) for t in terms)
            out[ab] = sum(np.pad(t, (0, n - len(t))) for t in terms)
        angle = getattr(self.ring0[i], 'BendingAngle', None)
        if getattr(src, 'BendingAngleError', None) is not None:
            out['B'][0] += float(np.squeeze(src.BendingAngleError)) * angle / self.ring0[i].Length
        if m in self.cf and angle is not None:
            out['B'][0] += (act['B'][1] / self.nom[m][0][1] - 1) * angle / self.ring0[i].Length
        return out


def compare(ctx, sc, model, inds, what):
    for i in inds:
        e, want = sc.RING[i], model.fields(sc, i)
        name = f'{what}: element {i} ({model.kinds[i]})'
        ctx.close(e.PolynomB, want['B'], name + ' normal coefficients', rtol=1e-10, atol=1e-15)
        ctx.close(e.PolynomA, want['A'], name + ' skew coefficients', rtol=1e-10, atol=1e-15)
        ctx.check(e.MaxOrder == max(len(want['A']), len(want['B'])) - 1, f'{name}: maximum order {e.MaxOrder}')
        if model.kinds[i] == 'corr':
            ctx.close(e.KickAngle, [want['B'][0], want['A'][0]], name + ' kick')


def build(ctx, rng):
    ring, kinds = gen.mini_line(rng)
    sc = SimulatedCommissioning(ring)
    model = Model(ring, kinds)
    registered = []
    masters = [i for i, k in kinds.items() if k == 'master']
    for i, k in kinds.items():
        if k.startswith('child'):
            continue
        n = len(ring[i].PolynomB)
        kw = {}
        scalar = rng.random() < 0.25
        if rng.random() < 0.8:
            ln = int(rng.integers(1, n + 1))
            kw['CalErrorB'] = np.array(0.02) if scalar and rng.random() < 0.5 else 0.02 * rng.random(ln)
        if rng.random() < 0.5:
            kw['CalErrorA'] = 0.02 * rng.random(int(rng.integers(1, n + 1)))
        if k in ('cf', 'bend', 'master') and rng.random() < 0.7:
            kw['BendingAngle'] = 1e-3 if rng.random() < 0.5 else [np.array(2e-3), 1]
        if k == 'cf' or (k == 'master' and rng.random() < 0.6 and abs(model.nom[i][0][1]) > 1e-3):
            kw['CF'] = 1
            model.cf.add(i)
        if k in ('cf', 'quad', 'corr', 'bend', 'sext') and rng.random() < 0.6:
            kw['HCM'] = 10.0
        if k in ('quad', 'corr', 'sext') and rng.random() < 0.6:
            kw['VCM'] = 10.0
        if k in ('sext', 'quad') and rng.random() < 0.5:
            kw['SkewQuad'] = 10.0
        if k == 'master':
            ch = [j for j, kk in kinds.items() if kk == f'child{i}']
            kw['MasterOf'] = np.array(ch).reshape(-1, 1)
            model.children[i] = ch
        sc.register_magnets(np.array([i]), **kw)
        registered.append(i)
    sc.register_cavities(np.array([0]))
    covered = registered + [c for ch in model.children.values() for c in ch]
    return sc, model, np.array(registered), covered


def one_op(ctx, sc, model, registered, covered, rng):
    """Performs a random operation; returns (name, indices whose fields must now be up to date)."""
    kinds = model.kinds
    k = int(rng.integers(9))
    if k <= 1:
        sc.apply_errors(float(rng.choice([0.5, 1, 2, 3])))
        return 'apply errors', covered
    if k == 2:
        sel = rng.choice(covered, int(rng.integers(1, len(covered) + 1)), replace=False)
        n = int(rng.integers(1, 7))
        sc.set_random_multipole_errors(sel, 1e-3 * rng.random((n, 2)))
        sc.update_magnets()
        return f'random multipoles {n}', covered
    if k in (3, 4):
        skew = bool(rng.integers(2))
        ab = 'A' if skew else 'B'
        sel = [i for i in rng.choice(covered, int(rng.integers(1, len(covered) + 1)), replace=False)]
        nmin = min(len(model.nom[model.master(i)][0]) for i in sel)
        order = int(rng.integers(0, nmin))
        n = int(rng.integers(order + 1, 7 + order))
        tab = 1e-2 * rng.standard_normal((n, 2))
        sc.set_systematic_multipole_errors(np.array(sel), tab, order, skew)
        own = tab.copy()
        own[order, 1 if skew else 0] = 0
        for i in sel:
            model.tables[i][(ab, order)] = own
        if rng.random() < 0.5:
            sc.update_magnets()
            return f'systematic {ab}{order}', covered
        part = rng.choice(registered, int(rng.integers(1, len(registered) + 1)), replace=False)
        sc.update_magnets(part)
        up = list(part) + [c for m in part for c in model.children.get(int(m), [])]
        res = [int(i) for i in up]
        ctx.event('partial updates')
        compare(ctx, sc, model, res, 'partial update')
        sc.update_magnets()
        return f'systematic {ab}{order} partial', covered
    if k == 5:
        sel = rng.choice(registered, int(rng.integers(1, len(registered) + 1)), replace=False)
        skew = bool(rng.integers(2))
        order = int(rng.integers(0, min(len(model.nom[i][0]) for i in sel)))
        method = str(rng.choice(['abs', 'add', 'rel']))
        sc.set_magnet_setpoints(sel, 1 + 0.1 * rng.standard_normal(len(sel)), skew, order, method)
        return f'set {method} {skew} {order}', covered
    if k == 6:
        cands = [i for i in registered if 'BPM' not in kinds[i]]
        sel = rng.choice(cands, int(rng.integers(1, len(cands) + 1)), replace=False)
        sc.set_cm_setpoints(sel, 1e-3 * rng.standard_normal(len(sel)), bool(rng.integers(2)), str(rng.choice(['abs', 'add'])))
        return 'corrector', covered
    if k == 7:
        # change of the drawn errors by hand, followed by an update (as the toolkit's users do)
        i = int(rng.choice(registered))
        sc.RING[i].CalErrorB = 0.05 * rng.standard_normal(len(sc.RING[i].SetPointB))
        sc.update_magnets(np.array([i]))
        return 'manual calibration', covered
    i = int(rng.choice(covered))
    n = int(rng.integers(1, 6))
    sc.RING[i].PolynomBOffset = 1e-3 * rng.standard_normal(n)
    sc.RING[i].PolynomAOffset = 1e-3 * rng.standard_normal(n)
    sc.update_magnets()
    return 'manual offsets', covered


def history(ctx):
    rng = ctx.rng
    sc, model, registered, covered = build(ctx, rng)
    sc.update_magnets()
    names = []
    for _ in range(int(rng.integers(4, 12 if not ctx.thorough else 30))):
        name, inds = one_op(ctx, sc, model, registered, covered, rng)
        names.append(name)
        compare(ctx, sc, model, inds, name)
        ctx.event('steps')
        ctx.event('magnets compared', len(inds))
    before = snap.ring(sc.RING)
    sc.update_magnets()
    sc.update_magnets(sc.ORD.Magnet)
    d = snap.diff(before, snap.ring(sc.RING), rtol=1e-14)
    ctx.check(not d, 'repeated update changes the machine: ' + snap.describe(d))
    ctx.note(kinds=list(model.kinds.values()), ops=names)
    ctx.sig(list(model.kinds.values()), names)


def ideal(ctx):
    """Registration without uncertainties keeps the design fields; errors reach the tracked beam."""
    rng = ctx.rng
    sc, model, registered, covered = build(ctx, rng)
    sc.update_magnets()
    compare(ctx, sc, model, covered, 'after registration')
    for i in covered:
        n = len(model.nom[i][0])
        ctx.close(sc.RING[i].PolynomB[:n], model.nom[i][0], f'error-free normal coefficients of {i}')
        ctx.close(sc.RING[i].PolynomA[:n], model.nom[i][1], f'error-free skew coefficients of {i}')
    ctx.note(kinds=list(model.kinds.values()))
    ctx.sig(list(model.kinds.values()), [float(sc.RING[i].Length) for i in covered])


def ring_history(ctx):
    """The same law on full rings with supports, where updates are triggered by many other operations."""
    rng = ctx.rng
    split = bool(rng.integers(2))
    cf = bool(rng.integers(2))
    sc, o = gen.make_sc(rng, dict(split_bends=split, cf_bends=cf and not split, corr_elements=bool(rng.integers(2)),
                                  long_poly=bool(rng.integers(2)), n_cells=6, kf=0.7, kd=0.77),
                        master=split, cf=cf and not split)
    kinds = {}
    for i in list(sc.ORD.Magnet) + list(o['bendb']):
        kinds[int(i)] = 'corr' if sc.RING[int(i)].PassMethod == 'CorrectorPass' else 'magnet'
    model = Model(sc.IDEALRING, kinds)
    if cf and not split:
        model.cf = {int(i) for i in o['bend']}
    if split:
        model.children = {int(a): [int(b)] for a, b in zip(o['benda'], o['bendb'])}
    names = []
    for _ in range(6):
        name, op = gen.random_op(sc, o, rng)
        op()
        names.append(name)
        compare(ctx, sc, model, list(kinds), name)
        ctx.event('steps')
        ctx.event('magnets compared', len(kinds))
    ctx.note(split=split, cf=cf, ops=names)
    ctx.sig(split, cf, names)


SCENARIOS = dict(history=Scenario(history, 1200, 6000), ideal=Scenario(ideal, 180, 600),
                 ring_history=Scenario(ring_history, 48, 300))
