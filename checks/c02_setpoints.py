"""C02: reference model of all setpoints, compared with the complete machine state after every set call."""
import copy
import numpy as np
from vlib import gen, snap
from vlib.common import Scenario
from pySC.core.simulated_commissioning import SimulatedCommissioning

PID = 'C02'
RULE = ('random lines with all magnet kinds and cavities (errors applied), random histories of magnet / corrector / cavity set calls with '
        'random element subsets (single, list, array, 2-D, empty), components, modes and value types (int, float, list, array); the whole '
        'machine is snapshotted around each call and every difference must be predicted by the reference model. Non-trivial: at least one '
        'setpoint changed; distinct by call sequence.')
ASSUMPTIONS = ['elements are addressed at most once per call', 'limits are wide enough not to clip (clipping is C03)']
DERIVED = {'PolynomA', 'PolynomB', 'KickAngle', 'MaxOrder', 'Voltage', 'Frequency', 'TimeLag', 'K', 'H'}


def build(rng):
    ring, kinds = gen.mini_line(rng)
    sc = SimulatedCommissioning(ring)
    children = {}
    mags = [i for i, k in kinds.items() if not k.startswith('child')]
    for i in mags:
        kw = dict(HCM=1e30, VCM=1e30, SkewQuad=1e30, CalErrorB=0.01 * np.ones(1), CalErrorA=0.01 * np.ones(1))
        if kinds[i] == 'master':
            ch = [j for j, kk in kinds.items() if kk == f'child{i}']
            kw['MasterOf'] = np.array(ch).reshape(-1, 1)
            children[i] = ch
        sc.register_magnets(np.array([i]), **kw)
    cavs = gen.ords(ring, 'CAV')
    sc.register_cavities(cavs, FrequencyOffset=10.0, VoltageCalError=0.01)
    sc.register_bpms(np.array([i for i, e in enumerate(ring) if e.FamName.startswith('BPM')]))
    if rng.random() < 0.7:
        sc.apply_errors()
    return sc, ring, np.array(mags), cavs, children


def as_input(rng, sel):
    """The same ordinates in one of the accepted spellings."""
    k = int(rng.integers(5))
    if len(sel) == 1 and k == 0:
        return int(sel[0])
    if len(sel) == 1 and k == 1:
        return np.int64(sel[0])
    if k == 2:
        return [int(i) for i in sel]
    if k == 3 and len(sel) % 2 == 0 and len(sel):
        return np.array(sel).reshape(2, -1)
    return np.array(sel)


def values(rng, n, scale):
    """Random values in one of the accepted spellings and as the plain expected array of length n."""
    k = int(rng.integers(8))
    if k == 0:
        v = float(scale * rng.standard_normal())
        return v, np.full(n, v), 'float'
    if k == 1:
        v = int(rng.integers(-3, 4))
        return v, np.full(n, float(v)), 'int'
    if k == 2:
        v = rng.integers(-3, 4, n)
        return v, v.astype(float), 'int array'
    if k == 3:
        v = [float(x) for x in scale * rng.standard_normal(n)]
        return v, np.array(v), 'list'
    if k == 4:
        v = [int(x) for x in rng.integers(-3, 4, n)]
        return v, np.array(v, dtype=float), 'int list'
    if k == 5:
        v = np.array([scale * rng.standard_normal()])
        return v, np.full(n, v[0]), 'array of one'
    if k == 6:
        v = np.float64(scale * rng.standard_normal())
        return v, np.full(n, float(v)), 'numpy scalar'
    v = scale * rng.standard_normal(n)
    return v, v.copy(), 'array'


def expect_only(ctx, before, after, changes, affected, what):
    """changes: {(element, attribute, index or None): value}; affected: elements whose derived fields may follow."""
    want = {}
    for (i, attr, comp), v in changes.items():
        want[(i, attr) if comp is None else (i, attr, comp)] = v
    for p, old, new in snap.diff(before, after):
        if p[0] != 'elements':
            ctx.fail(f'{what}: lattice attribute {p} changed')
        key = p[1:]
        if key in want:
            continue
        ctx.check(key[0] in affected and key[1] in DERIVED, f'{what}: unexpected change {key}: {old} -> {new}')
    for key, v in want.items():
        got = after['elements'][key[0]][key[1]]
        if len(key) == 3:
            ctx.check(isinstance(got, np.ndarray) and got.dtype.kind == 'f', f'{what}: {key[1]} of {key[0]} is not a float array')
            got = got[key[2]]
        ctx.close(got, v, f'{what}: {key}', rtol=1e-12, atol=1e-300)


def history(ctx):
    rng = ctx.rng
    sc, ring, mags, cavs, children = build(rng)
    sc.update_magnets()
    names = []
    for _ in range(int(rng.integers(6, 14 if not ctx.thorough else 40))):
        kind = str(rng.choice(['magnet', 'magnet', 'cm', 'cm', 'cavity', 'bad']))
        method = str(rng.choice(['abs', 'rel', 'add']))
        pool = cavs if kind == 'cavity' else mags
        n = int(rng.integers(0 if rng.random() < 0.1 else 1, len(pool) + 1))
        sel = rng.choice(pool, n, replace=False)
        arg_ords = as_input(rng, sel)
        scale = {'magnet': 1.0, 'cm': 1e-2, 'cavity': 1.0, 'bad': 1.0}[kind]
        arg_vals, vals, form = values(rng, n, scale)
        keep = copy.deepcopy((arg_ords, arg_vals))
        before = snap.ring(sc.RING)
        ideal = snap.ring(sc.IDEALRING)
        els = before['elements']
        changes, affected = {}, set(int(i) for i in sel)
        for i in sel:
            affected |= set(children.get(int(i), []))
        default = method == 'abs' and rng.random() < 0.5
        margs = {} if default else dict(method=method)
        if kind == 'magnet':
            skew = bool(rng.integers(2))
            order = int(rng.integers(0, min([len(ring[int(i)].PolynomB) for i in sel] or [1])))
            attr = 'SetPointA' if skew else 'SetPointB'
            for i, v in zip(sel, vals):
                i = int(i)
                nom = (ring[i].PolynomA if skew else ring[i].PolynomB)[order]
                cur = els[i][attr][order]
                changes[(i, attr, order)] = dict(abs=v, rel=v * nom, add=v + cur)[method]
            sc.set_magnet_setpoints(arg_ords, arg_vals, skew, order, **margs)
            name = f'magnet {method} {"skew" if skew else "normal"} {order} {form} n={n}'
        elif kind == 'cm':
            skew = bool(rng.integers(2))
            attr = 'SetPointA' if skew else 'SetPointB'
            wanted = []
            for i, v in zip(sel, vals):
                i = int(i)
                norm = 1.0 if ring[i].PassMethod == 'CorrectorPass' else (1 if skew else -1) * ring[i].Length
                cur = els[i][attr][0] * norm
                w = dict(abs=v, rel=v * cur, add=v + cur)[method]
                wanted.append(w)
                changes[(i, attr, 0)] = w / norm
            present = sc.get_cm_setpoints(arg_ords, skew) if n else np.zeros(0)
            ctx.check(np.size(present) == n, f'reading {n} corrector setpoints returned {np.size(present)}')
            sc.set_cm_setpoints(arg_ords, arg_vals, skew, **margs)
            name = f'corrector {method} {"v" if skew else "h"} {form} n={n}'
            if n:
                got = sc.get_cm_setpoints(arg_ords, skew)
                ctx.close(np.ravel(got), wanted, name + ': read back', rtol=1e-12, atol=1e-18)
        elif kind == 'cavity':
            param = str(rng.choice(['Voltage', 'Frequency', 'TimeLag']))
            for i, v in zip(sel, vals):
                cur = els[int(i)][param + 'SetPoint']
                changes[(int(i), param + 'SetPoint', None)] = dict(abs=v, rel=v * cur, add=v + cur)[method]
            sc.set_cavity_setpoints(arg_ords, arg_vals, param, **margs)
            name = f'cavity {method} {param} {form} n={n}'
        else:
            which = int(rng.integers(2))
            bad_vals = arg_vals if which else np.ones(n + 2)
            bad_method = str(rng.choice(['sub', 'ABS', 'absolute', ''])) if which else method
            target = int(rng.integers(3))
            fns = [lambda: sc.set_magnet_setpoints(arg_ords, bad_vals, False, 0, bad_method),
                   lambda: sc.set_cm_setpoints(arg_ords, bad_vals, False, bad_method),
                   lambda: sc.set_cavity_setpoints(as_input(rng, cavs[:1]), bad_vals if which else np.ones(3), 'Voltage', bad_method)]
            ctx.raises(ValueError, fns[target], f'malformed request {target} {bad_method}')
            name = 'rejected'
            affected = set()
        names.append(name)
        expect_only(ctx, before, snap.ring(sc.RING), changes, affected, name)
        d = snap.diff(ideal, snap.ring(sc.IDEALRING))
        ctx.check(not d, f'{name}: design lattice changed: ' + snap.describe(d))
        d = snap.diff(snap.freeze(list(keep)), snap.freeze([arg_ords, arg_vals]))
        ctx.check(not d, f'{name}: arguments of the call were modified: ' + snap.describe(d))
        if kind != 'bad':
            ctx.event(f'{kind} {method}')
        ctx.event('state comparisons')
    ctx.note(magnets=len(mags), cavities=len(cavs), calls=names)
    ctx.sig(names)


def retained(ctx):
    """Changing a passed array afterwards, or setting several elements from one array, does not couple them."""
    rng = ctx.rng
    sc, ring, mags, cavs, children = build(rng)
    sc.update_magnets()
    sel = rng.choice(mags, int(rng.integers(2, len(mags))), replace=False)
    vals = rng.standard_normal(len(sel))
    want = vals.copy()
    skew = bool(rng.integers(2))
    sc.set_magnet_setpoints(sel, vals, skew, 0)
    cavv = np.abs(rng.standard_normal(len(cavs))) * 1e5
    wantc = cavv.copy()
    sc.set_cavity_setpoints(cavs, cavv, 'Voltage')
    vals[:] = 7.0
    cavv[:] = 7.0
    got = [getattr(sc.RING[int(i)], 'SetPointA' if skew else 'SetPointB')[0] for i in sel]
    ctx.close(got, want, 'setpoints follow the caller array')
    ctx.close([sc.RING[int(i)].VoltageSetPoint for i in cavs], wantc, 'cavity setpoints follow the caller array')
    got = sc.get_cm_setpoints(sel, skew)
    before = snap.ring(sc.RING)
    got[:] = 3.0
    ctx.check(not snap.diff(before, snap.ring(sc.RING)), 'returned setpoints are a view of the machine')
    # applying the same absolute request twice is the same as once; add and its negative restore
    sc.set_magnet_setpoints(sel, want, skew, 0)
    b1 = snap.ring(sc.RING)
    sc.set_magnet_setpoints(sel, want, skew, 0)
    ctx.check(not snap.diff(b1, snap.ring(sc.RING)), 'repeating an absolute request changes the machine')
    sc.set_cm_setpoints(sel, 0.5, skew, 'add')
    sc.set_cm_setpoints(sel, -0.5, skew, 'add')
    d = snap.diff(b1, snap.ring(sc.RING), rtol=1e-9, atol=1e-12)
    ctx.check(not d, 'adding and subtracting does not restore: ' + snap.describe(d))
    ctx.note(n=len(sel), skew=skew)
    ctx.sig(len(sel), skew, float(want[0]))


SCENARIOS = dict(history=Scenario(history, 1200, 4000), retained=Scenario(retained, 240, 500))
