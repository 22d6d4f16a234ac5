"""C03: deflection of tracked particles by correctors, and clipping at the limits."""
import numpy as np
import at
from vlib import gen, snap
from vlib.common import Scenario
from pySC.core.simulated_commissioning import SimulatedCommissioning

PID = 'C03'
RULE = ('kick: an error-free corrector of every kind (thin, straight drift-like magnet, focusing / defocusing quadrupole, sextupole, bend) is '
        'set by random set calls and a particle is tracked through it; its exit angle is compared with theory. limit: histories of corrector '
        'and skew-quadrupole requests around random limits against a clipping model. ring: closed orbit / trajectory of a full ring responds '
        'to the set kick. Distinct by magnet kind, plane, limits and requests; non-trivial when a kick or a clip was observed.')
ASSUMPTIONS = ['limits are non-negative', 'AT tracking is trusted']


def one_element(rng, kind):
    length = float(rng.uniform(0.1, 1.0))
    n = int(rng.integers(2, 5))
    pb, pa = np.zeros(n), np.zeros(n)
    k = 0.0
    if kind == 'thin':
        e = at.Corrector('C', 0.0, np.zeros(2), PassMethod='CorrectorPass', PolynomB=pb, PolynomA=pa, MaxOrder=n - 1)
        return e, 0.0, 0.0, 0.0
    if kind == 'thinlong':
        e = at.Corrector('C', length, np.zeros(2), PassMethod='CorrectorPass', PolynomB=pb, PolynomA=pa, MaxOrder=n - 1)
        return e, length, 0.0, 0.0
    if kind == 'straight':
        e = at.Quadrupole('C', length, 0.0, PassMethod='StrMPoleSymplectic4Pass', PolynomB=pb, PolynomA=pa, NumIntSteps=20)
        return e, length, 0.0, 0.0
    if kind == 'quad':
        k = float(rng.uniform(0.1, 1.5) * rng.choice([-1, 1]))
        pb[1] = k
        e = at.Quadrupole('C', length, k, PassMethod='StrMPoleSymplectic4Pass', PolynomB=pb, PolynomA=pa, NumIntSteps=30)
        return e, length, k, 0.0
    if kind == 'sext':
        pb = np.zeros(max(n, 3))
        pa = np.zeros(max(n, 3))
        pb[2] = float(rng.uniform(-20, 20))
        e = at.Sextupole('C', length, pb[2], PassMethod='StrMPoleSymplectic4Pass', PolynomB=pb, PolynomA=pa, NumIntSteps=20)
        return e, length, 0.0, 0.0
    angle = float(rng.uniform(0.01, 0.3) * rng.choice([-1, 1]))
    e = at.Dipole('C', length, angle, 0.0, PassMethod='BndMPoleSymplectic4Pass', PolynomB=pb, PolynomA=pa, NumIntSteps=30)
    return e, length, 0.0, angle


def sinc_like(k, length):
    """Exit slope per unit total kick for a kick distributed over a length with focusing k."""
    if length == 0 or k == 0:
        return 1.0
    w = np.sqrt(abs(k)) * length
    return np.sin(w) / w if k > 0 else np.sinh(w) / w


def kick(ctx):
    rng = ctx.rng
    kind = ['thin', 'thinlong', 'straight', 'quad', 'sext', 'bend'][ctx.idx % 6]
    e, length, k, angle = one_element(rng, kind)
    ring = at.Lattice([at.Marker('M'), e, at.Marker('M2')], energy=2.5e9, periodicity=1)
    sc = SimulatedCommissioning(ring)
    sc.register_magnets(np.array([1]), HCM=1.0, VCM=1.0)
    hk = vk = 0.0
    seq = []
    for _ in range(4):
        skew = bool(rng.integers(2))
        method = str(rng.choice(['abs', 'add', 'rel']))
        v = float(rng.uniform(-2e-5, 2e-5)) if method != 'rel' else float(rng.uniform(-2, 2))
        cur = vk if skew else hk
        new = dict(abs=v, add=cur + v, rel=cur * v)[method]
        sc.set_cm_setpoints(1, v, skew, method)
        if skew:
            vk = new
        else:
            hk = new
        out = at.lattice_track(sc.RING.copy(), np.zeros((6, 1)), nturns=1, refpts=[3])[0].reshape(6)
        kx = k + ((angle / length) ** 2 if angle else 0.0)
        ky = -k
        scale = abs(hk) + abs(vk)
        tol = 1e-12 + scale * (1e-9 if kind.startswith('thin') else 2e-3)
        ctx.close(out[1], hk * sinc_like(kx, length), f'{kind}: horizontal deflection', rtol=0, atol=tol)
        ctx.close(out[3], vk * sinc_like(ky, length), f'{kind}: vertical deflection', rtol=0, atol=tol)
        ctx.close(np.ravel(sc.get_cm_setpoints(1, False)), [hk], 'horizontal readback', rtol=1e-11, atol=1e-20)
        ctx.close(np.ravel(sc.get_cm_setpoints(1, True)), [vk], 'vertical readback', rtol=1e-11, atol=1e-20)
        seq.append((skew, method))
        ctx.event('tracked kicks')
    ctx.note(kind=kind, length=length, k=k, angle=angle, calls=seq, hk=hk, vk=vk)
    ctx.sig(kind, seq, length)


def limit(ctx):
    rng = ctx.rng
    ring, kinds = gen.mini_line(rng)
    sc = SimulatedCommissioning(ring)
    mags = [i for i, k in kinds.items() if not k.startswith('child')]
    lim = {}
    for _ in range(int(rng.integers(1, 4))):
        for i in mags:
            kw = {}
            if rng.random() < 0.5:
                kw['HCM'] = float(rng.choice([0.0, 1e-4, 1e-3, 5.0]) if rng.random() < 0.5 else rng.uniform(0, 1e-3))
            if rng.random() < 0.5:
                kw['VCM'] = float(rng.choice([0.0, 1e-4, 1e-3, 5.0]) if rng.random() < 0.5 else rng.uniform(0, 1e-3))
            if rng.random() < 0.5:
                kw['SkewQuad'] = float(rng.uniform(0, 0.1))
            sc.register_magnets(np.array([i]), **kw)
            cur = lim.setdefault(i, dict(cm=None, sq=None))
            if 'HCM' in kw or 'VCM' in kw:
                c = cur['cm'] or [0.0, 0.0]
                cur['cm'] = [kw.get('HCM', c[0]), kw.get('VCM', c[1])]
            if 'SkewQuad' in kw:
                cur['sq'] = kw['SkewQuad']
    clips = 0
    seq = []
    for _ in range(12 if not ctx.thorough else 40):
        sel = [int(i) for i in rng.choice(mags, int(rng.integers(1, len(mags) + 1)), replace=False)]
        skew = bool(rng.integers(2))
        method = str(rng.choice(['abs', 'add', 'rel']))
        size = float(10 ** rng.uniform(-5, -2))
        vals = size * rng.standard_normal(len(sel)) if method != 'rel' else rng.uniform(-4, 4, len(sel))
        kind = str(rng.choice(['cm', 'cm', 'mag']))
        order = 1 if kind == 'mag' and rng.random() < 0.7 else 0
        if kind == 'mag' and min(len(ring[i].PolynomB) for i in sel) <= order:
            continue
        if kind == 'mag':
            vals = vals * 100 if method != 'rel' else vals
        want = []
        for i, v in zip(sel, vals):
            e = sc.RING[i]
            attr = 'SetPointA' if skew else 'SetPointB'
            if kind == 'cm':
                norm = 1.0 if ring[i].PassMethod == 'CorrectorPass' else (1 if skew else -1) * ring[i].Length
                cur = getattr(e, attr)[0] * norm
                w = dict(abs=v, add=cur + v, rel=cur * v)[method]
                cm = lim[i]['cm']
                # keep requests clear of the limit itself, where rounding decides
                if cm is not None and abs(w) > cm[int(skew)] * (1 + 1e-9):
                    w = np.sign(w) * cm[int(skew)]
                    clips += 1
                want.append(w)
            else:
                nom = (ring[i].PolynomA if skew else ring[i].PolynomB)[order]
                w = dict(abs=v, add=getattr(e, attr)[order] + v, rel=nom * v)[method]
                if skew and order == 1 and lim[i]['sq'] is not None and abs(w) > lim[i]['sq'] * (1 + 1e-9):
                    w = np.sign(w) * lim[i]['sq']
                    clips += 1
                want.append(w)
        if kind == 'cm':
            sc.set_cm_setpoints(np.array(sel), vals.copy(), skew, method)
            got = np.ravel(sc.get_cm_setpoints(np.array(sel), skew))
            ctx.close(got, want, f'corrector setpoints after {method}', rtol=1e-8, atol=1e-18)
            for g, i in zip(got, sel):
                if lim[i]['cm'] is not None:
                    ctx.check(abs(g) <= lim[i]['cm'][int(skew)] * (1 + 1e-8), f'corrector {i} beyond its limit: {g}')
        else:
            sc.set_magnet_setpoints(np.array(sel), vals.copy(), skew, order, method)
            got = [getattr(sc.RING[i], 'SetPointA' if skew else 'SetPointB')[order] for i in sel]
            ctx.close(got, want, f'magnet setpoints after {method} skew={skew} order={order}', rtol=1e-8, atol=1e-18)
        seq.append((kind, method, skew, order, len(sel)))
    ctx.event('clipped requests', clips)
    ctx.note(limits={str(k): v for k, v in lim.items()}, calls=seq, clips=clips)
    if clips:
        ctx.sig(seq, list(lim.values()))


def exact_limit(ctx):
    """Requests at the limit itself are applied; beyond it the limit is applied, in every plane independently."""
    rng = ctx.rng
    kind = ['thin', 'straight', 'quad', 'bend'][ctx.idx % 4]
    e, length, _, _ = one_element(rng, kind)
    sc = SimulatedCommissioning(at.Lattice([at.Marker('M'), e, at.Marker('M2')], energy=2.5e9, periodicity=1))
    hl, vl, sl = (float(x) for x in rng.uniform(1e-5, 1e-3, 3))
    sc.register_magnets(np.array([1]), HCM=hl, VCM=vl, SkewQuad=sl)
    for s in (1, -1):
        for f in (1.0, 0.5, 1.0001, 3.0, 1e6):
            sc.set_cm_setpoints(1, s * f * hl, False)
            sc.set_cm_setpoints([1], [s * f * vl], True)
            sc.set_magnet_setpoints(1, s * f * sl, True, 1)
            w = s * min(f, 1.0)
            ctx.close(np.ravel(sc.get_cm_setpoints(1, False)), [w * hl], f'horizontal limit, request {s * f}', rtol=1e-10)
            ctx.close(np.ravel(sc.get_cm_setpoints(1, True)), [w * vl], f'vertical limit, request {s * f}', rtol=1e-10)
            ctx.close(sc.RING[1].SetPointA[1], w * sl, f'skew limit, request {s * f}', rtol=1e-10)
    v = float(10 * sl)
    sc.set_magnet_setpoints(1, v, False, 1)
    ctx.close(sc.RING[1].SetPointB[1], v, 'normal gradient is not limited')
    ctx.note(kind=kind, limits=[hl, vl, sl])
    ctx.sig(kind, hl)


def ring_kick(ctx):
    """In a full ring: the first-turn trajectory downstream moves as a kick at the corrector predicts."""
    rng = ctx.rng
    sc = gen.make_ideal_sc(rng, corr_elements=bool(ctx.idx % 2))
    o = gen.register_all(sc, rng, bpm=False, mag=False, rf=False, supports=False, inj=False, cm_limit=1.0)
    cms = sc.ORD.HCM
    i = int(rng.choice(cms))
    skew = bool(rng.integers(2))
    v = float(rng.uniform(1e-6, 1e-5) * rng.choice([-1, 1]))
    sc.set_cm_setpoints(i, v, skew)
    refs = np.arange(i + 1, len(sc.RING) + 1)
    got = at.lattice_track(sc.RING.copy(), np.zeros((6, 1)), nturns=1, refpts=refs)[0][:, 0, :, 0]
    # reference: design ring, particle kicked in the middle of the magnet
    ideal = sc.IDEALRING.deepcopy()
    z = np.zeros((6, 1))
    half = ideal[i].Length / 2
    z[2 * skew] = -half * v if half else 0.0
    # kick at the centre: drift back by half length of displacement, then propagate from the exit of the corrector
    z0 = np.zeros((6, 1))
    z0[1 + 2 * skew] = v
    z0[0 + 2 * skew] = v * half
    want = np.array(at.lattice_track(ideal[i + 1:], z0, nturns=1, refpts=np.arange(len(ideal) - i))[0])[:, 0, :, 0]
    c = 2 * skew
    scale = np.max(np.abs(want[c]))
    ctx.close(got[c], want[c][:got.shape[1]], 'trajectory after the corrector', rtol=0, atol=0.15 * scale)
    ctx.check(np.max(np.abs(got[2 - c])) < 0.05 * scale + 1e-12, 'corrector kicks in the other plane')
    ctx.event('trajectories')
    ctx.note(corrector=i, skew=skew, kick=v, passmethod=sc.RING[i].PassMethod)
    ctx.sig(i, skew, v)


SCENARIOS = dict(kick=Scenario(kick, 1080, 3000), limit=Scenario(limit, 900, 3000), exact_limit=Scenario(exact_limit, 240, 400),
                 ring_kick=Scenario(ring_kick, 144, 400))
