"""C27: every result of the wrapper within random histories of lattice changes compared with the tracking code on separately built copies; lattices and inputs compared byte by byte."""
import numpy as np
import at
from vlib import gen, snap
from vlib.common import Scenario, Skip
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.utils import at_wrapper

PID = 'C27'
RULE = ('histories of wrapped tracking, orbit search, optics, position and field queries on several lattices that are changed in between (in place, by '
        'new arrays, pass methods, lengths, apertures, inserted elements), random coordinates, turns, reference points and parallel tracking. Distinct by history; '
        'every answer is compared with the tracking code on fresh copies and with a repetition.')
ASSUMPTIONS = ['tracking of the same particles on a fresh copy of the lattice by AT is the reference']


def fresh(ring):
    return at.Lattice([e.deepcopy() for e in ring], energy=ring.energy, periodicity=ring.periodicity)


def lattices(rng):
    out = []
    for _ in range(int(rng.integers(1, 4))):
        kw = dict(split_bends=bool(rng.random() < 0.3), corr_elements=bool(rng.random() < 0.4), sext=(0.0, 0.0) if rng.random() < 0.3 else (3.0, -4.0), rf=bool(rng.random() < 0.7))
        if out and rng.random() < 0.5:
            r = fresh(out[0])  # same number of elements
        else:
            r = gen.make_ring(rng, **kw)
        if rng.random() < 0.4:
            sc = SimulatedCommissioning(r)
            sc.register_magnets(gen.ords(sc.RING, 'QF', 'QD'), CalErrorB=np.array([0, 1e-3, 0]), MagnetOffset=np.array([2e-5, 2e-5, 0]))
            sc.apply_errors()
            r = sc.RING
        out.append(r)
    return out


def change(ring, rng):
    """A change of the lattice as pySC or a user makes it."""
    k = int(rng.integers(8))
    q = int(rng.choice(gen.ords(ring, 'QF', 'QD')))
    if k == 0:
        ring[q].PolynomB[1] *= 1 + 1e-3 * rng.normal()
        return 'gradient in place'
    if k == 1:
        p = ring[q].PolynomB.copy()
        p[1] *= 1 + 1e-3 * rng.normal()
        ring[q].PolynomB = p
        return 'gradient replaced'
    if k == 2:
        a = ring[q].PolynomA.copy()
        a[int(rng.integers(2))] += 1e-4 * rng.normal()
        ring[q].PolynomA = a
        return 'skew replaced'
    if k == 3:
        ring[q].T1 = np.concatenate((1e-4 * rng.normal(size=4), np.zeros(2)))
        ring[q].T2 = -ring[q].T1
        return 'offset'
    if k == 4:
        c = gen.ords(ring, 'RFCav')
        if not len(c):
            return 'nothing'
        ring[int(c[0])].Frequency += 50 * rng.normal()
        return 'frequency'
    if k == 5:
        i = int(rng.choice(gen.ords(ring, 'D3', 'D2')))
        ring[i].EApertures = np.abs(rng.normal(size=2)) * 2e-3 + 5e-4
        return 'aperture'
    if k == 6:
        i = int(rng.choice(gen.ords(ring, 'D2')))
        ring[i].Length = ring[i].Length * (1 + 1e-4 * rng.normal())
        return 'length'
    ring.insert(int(rng.integers(1, len(ring))), at.Marker('NEW'))
    return 'inserted'


def refs(ring, rng):
    n = len(ring)
    k = int(rng.integers(6))
    if k == 0:
        return np.arange(n + 1)
    if k == 1:
        return int(rng.integers(n + 1))
    if k == 2:
        return np.sort(rng.choice(n + 1, int(rng.integers(1, 8)), replace=False))
    if k == 3:
        m = np.zeros(n + 1, dtype=bool)
        m[rng.choice(n + 1, 5, replace=False)] = True
        return m
    if k == 4:
        return [int(i) for i in np.sort(rng.choice(n, 3, replace=False))]
    return gen.ords(ring, 'BPM')


def same(ctx, got, want, what):
    a, b = snap.freeze(got), snap.freeze(want)
    d = snap.diff(a, b, rtol=1e-13, atol=0.0)
    ctx.check(not d, f'{what}: {snap.describe(d)}')


def close(ctx, got, want, what, rtol=1e-12, atol=1e-16):
    ctx.close(got, want, what, rtol=rtol, atol=atol)


def history(ctx):
    rng = ctx.rng
    rings = lattices(rng)
    done = []
    last = {}
    for step in range(int(rng.integers(6, 16))):
        n = int(rng.integers(len(rings)))
        ring = rings[n]
        if rng.random() < 0.5:
            done.append((n, change(ring, rng)))
            last = {k: v for k, v in last.items() if k[0] != n}
        kind = str(rng.choice(['track', 'track', 'orbit6' if len(gen.ords(ring, 'RFCav')) else 'orbit4', 'spos', 'fields', 'optics']))
        done.append((n, kind))
        ctx.note(history=[f'{a}:{b}' for a, b in done][-20:])
        before = [snap.ring(r) for r in rings]
        r = refs(ring, rng)
        r0 = snap.freeze(r)
        if kind == 'track':
            np_ = int(rng.choice([1, 1, 4, 30]))
            z = rng.normal(size=(6, np_)) * np.array([[5e-4], [5e-5], [5e-4], [5e-5], [1e-3], [1e-3]]) * 10 ** rng.uniform(-1, 0.5)
            shape = int(rng.integers(3))
            if np_ == 1 and shape:
                z = z[:, 0]
            elif shape == 2:
                z = np.asfortranarray(z)
            z0 = z.copy()
            turns = int(rng.choice([1, 2, 3, 4, 130], p=[0.25, 0.2, 0.2, 0.2, 0.15]))
            kw = dict(use_mp=True) if rng.random() < (0.15 if np_ > 1 else 0.05) else {}
            got = at_wrapper.lattice_track(ring, z, turns, r, **kw)
            ctx.check(np.array_equal(z, z0), 'initial coordinates were changed')
            again = at_wrapper.lattice_track(ring, z, turns, r, **({} if kw else kw))
            want = at.lattice_track(fresh(ring), z0.copy(), nturns=turns, refpts=r, in_place=False)[0]
            close(ctx, got, want, f'tracking in {done[-4:]}')
            close(ctx, again, want, f'tracking repeated in {done[-4:]}')
            ctx.check(not np.shares_memory(got, z) and not np.shares_memory(got, again), 'shared result')
            got[:] = 0.0
        elif kind in ('orbit6', 'orbit4'):
            f, g = (at_wrapper.findorbit6, at.find_orbit6) if kind == 'orbit6' else (at_wrapper.findorbit4, at.find_orbit4)
            r = r if rng.random() < 0.8 else None
            kw = dict(guess=rng.normal(size=6) * 1e-6) if rng.random() < 0.2 else {}
            if kind == 'orbit4':
                kw['dp'] = float(rng.choice([0.0, 1e-3]))
            kw_ref = dict(kw)
            args = (ring,) if r is None and rng.random() < 0.5 else (ring, kw.pop('dp'), r) if kind == 'orbit4' and rng.random() < 0.5 else (ring,)
            if len(args) == 1 and r is not None:
                kw['refpts'] = r
            kw0 = snap.freeze(kw)
            try:   # before the reference, which would refresh what the tracking code remembers
                got, err = f(*args, **kw), None
                again = f(*args, **kw)
            except at.AtError as e:
                err = e
            try:
                want = g(fresh(ring), refpts=r, **kw_ref)
            except at.AtError:
                ctx.check(err is not None, f'{kind} of a ring without closed orbit')
                done.pop()
                continue
            if err is not None:
                raise err
            ctx.check(len(got) == 2, 'orbit and orbit at the reference points')
            for k in range(2):
                close(ctx, got[k], want[k], f'{kind} in {done[-4:]}', rtol=1e-9, atol=1e-14)
                close(ctx, again[k], want[k], f'{kind} repeated in {done[-4:]}', rtol=1e-9, atol=1e-14)
            ctx.check(not snap.diff(kw0, snap.freeze(kw)), 'arguments were changed')
        elif kind == 'spos':
            got = at_wrapper.findspos(ring)
            lengths = np.array([getattr(e, 'Length', 0.0) for e in ring])
            close(ctx, got, np.concatenate(([0.0], np.cumsum(lengths))), 'positions', atol=1e-11)
            got[:] = 0
        elif kind == 'fields':
            name, idx = [('Length', None), ('PolynomB', 1), ('PolynomB', 0), ('FamName', None), ('PolynomA', 1)][int(rng.integers(5))]
            pool = gen.ords(ring, 'QF', 'QD', 'SF', 'SD') if rng.random() < 0.6 or name != 'FamName' else np.arange(len(ring))
            ind = np.sort(rng.choice(pool, int(rng.integers(1, 6)), replace=False))
            args = (ind, name) if idx is None else (ind, name, idx)
            r, r0 = ind, snap.freeze(ind)
            got = at_wrapper.atgetfieldvalues(ring, *args)
            want = [getattr(ring[int(i)], name) if idx is None else getattr(ring[int(i)], name)[idx] for i in ind]
            ctx.check(np.array_equal(got, np.array(want)), f'values of {name} at {ind}: {got}, expected {want}')
            ctx.check(np.array_equal(at_wrapper.atgetfieldvalues(ring, *args), got), 'repeated query')
        else:
            ok = fresh(ring)
            kw = dict(refpts=gen.ords(ring, 'BPM'), get_chrom=bool(rng.random() < 0.5))
            try:
                got, err = at_wrapper.atlinopt(ring, **kw), None
            except Exception as e:
                err = e
            try:
                want = at.get_optics(ok, **kw)
                if not np.all(np.isfinite(want[1].tune)):
                    continue
            except Exception:
                continue
            if err is not None:
                raise err
            close(ctx, got[1].tune, want[1].tune, f'tunes in {done[-4:]}', rtol=1e-9, atol=1e-12)
            close(ctx, got[2].beta, want[2].beta, f'beta functions in {done[-4:]}', rtol=1e-7, atol=1e-9)
        ctx.check(not snap.diff(r0, snap.freeze(r)) or r is None, 'reference points were changed')
        for k, rg in enumerate(rings):
            d = snap.diff(before[k], snap.ring(rg))
            ctx.check(not d, f'{kind} changed lattice {k}: {snap.describe(d)}')
        ctx.event(kind)
    ctx.sig(done)


def machine_level(ctx):
    """Readings and transmission follow the present machine however often and in which order they are taken."""
    from pySC.core.beam import bpm_reading, beam_transmission
    rng = ctx.rng
    a, oa = gen.make_sc(rng, noise=False)
    b, ob = gen.make_sc(rng, noise=False) if rng.random() < 0.5 else (None, None)
    machines = [(a, oa)] + ([(b, ob)] if b is not None else [])
    names = []
    for m, _ in machines:
        m.INJ.randomInjectionZ = np.zeros(6)
        m.INJ.nTurns = int(rng.integers(1, 4))
    for _ in range(int(rng.integers(3, 8))):
        k = int(rng.integers(len(machines)))
        sc, o = machines[k]
        name, op = gen.random_op(sc, o, rng)
        op()
        sc.INJ.trackMode = str(rng.choice(['TBT', 'ORB', 'PORB']))
        names.append((k, name, sc.INJ.trackMode))
        ctx.note(history=names)
        randomz = np.zeros(6)
        sc.INJ.randomInjectionZ = randomz
        ring = fresh(sc.RING)
        try:
            if sc.INJ.trackMode == 'ORB':
                pos = at.find_orbit6(ring, sc.ORD.BPM)[1][:, [0, 2]].T[:, :, None]
            else:
                pos = at.lattice_track(ring, sc.INJ.Z0.reshape(6, 1).copy(), nturns=sc.INJ.nTurns, refpts=sc.ORD.BPM, in_place=False)[0][[0, 2], 0]
        except at.AtError:
            continue
        got = bpm_reading(sc)[0]
        roll = np.array([np.ravel(sc.RING[i].Roll)[0] + np.ravel(sc.RING[i].SupportRoll)[0] for i in sc.ORD.BPM])
        c, s = np.cos(roll)[:, None], np.sin(roll)[:, None]
        want = np.stack((c * pos[0] - s * pos[1], s * pos[0] + c * pos[1]))
        off = np.array([np.asarray(sc.RING[i].Offset) + np.asarray(sc.RING[i].SupportOffset)[:2] for i in sc.ORD.BPM]).T
        cal = np.array([sc.RING[i].CalError for i in sc.ORD.BPM]).T
        want = (want - off[:, :, None]) * (1 + cal[:, :, None])
        if sc.INJ.trackMode == 'PORB':
            want = np.nanmean(want, axis=2, keepdims=True)
        ctx.close(got, np.transpose(want, (0, 2, 1)).reshape(2, -1), f'reading after {names[-3:]}', rtol=1e-9, atol=1e-11)
        ctx.event('readings')
    ctx.sig(names)


def missing(ctx):
    ring = gen.make_ring(ctx.rng)
    ctx.raises(NotImplementedError, lambda: at_wrapper.twissline(ring), 'twissline')
    ctx.raises(NotImplementedError, lambda: at_wrapper.atloco(ring), 'atloco')
    ctx.sig(ctx.idx)


SCENARIOS = dict(history=Scenario(history, 300, 4000), machine_level=Scenario(machine_level, 120, 1500), missing=Scenario(missing, 1, 2))
