"""C26: optics Jacobians recomputed by tracking separately modified lattices, fits compared with exact least squares, corrections with the requested values and closed loops with the known errors."""
import os
import numpy as np
import at
from unittest import mock
from vlib import gen, snap
from vlib.common import Scenario, Skip
from pySC.core.classes import DotDict
from pySC.correction import loco, loco_wrapper
from pySC.lattice_properties.response_model import SCgetModelRM, SCgetModelRING

PID = 'C26'
RULE = ('random machines, magnet selections, steps, setting methods, normal and skew components, with and without dispersion, numbers of worker processes; '
        'random linear problems with known parameters, weights, damping and truncation; corrections of individuals and families; loops of measurement, '
        'fit and correction on machines with known errors. Distinct by settings; non-trivial when a matrix, a fit or a machine was compared.')
ASSUMPTIONS = ['weights are a number or a diagonal matrix', 'the machine model of the Jacobian is the one with present setpoints (useIdealRing=False) unless stated']


def fresh(ring):
    return at.Lattice([e.deepcopy() for e in ring], energy=ring.energy, periodicity=1)


def kicked(ring, i, plane, kick):
    r = fresh(ring)
    e = r[i]
    if e.PassMethod == 'CorrectorPass':
        k = np.array(e.KickAngle, dtype=float)
        k[plane] += kick
        e.KickAngle = k
    else:
        f = 'PolynomB' if plane == 0 else 'PolynomA'
        p = np.array(getattr(e, f), dtype=float)
        p[0] += (-kick if plane == 0 else kick) / e.Length
        setattr(e, f, p)
    return r


def positions(ring, mode, bpms):
    if mode == 'ORB':
        orb = at.find_orbit6(ring, bpms)[1]
        return np.concatenate((orb[:, 0], orb[:, 2]))
    t = at.lattice_track(ring, np.zeros((6, 1)), nturns=1, refpts=np.array(bpms), in_place=False)[0][:, 0, :, 0]
    return np.concatenate((t[0], t[2]))


def own_rm(ring, mode, bpms, cms, kick):
    ref = positions(ring, mode, bpms)
    return np.array([(positions(kicked(ring, int(c), p, kick), mode, bpms) - ref) / kick for p in range(2) for c in cms[p]]).T


def own_dispersion(ring, bpms, cavs, step):
    r = fresh(ring)
    for c in cavs:
        r[int(c)].Frequency += step
    return (positions(r, 'ORB', bpms) - positions(ring, 'ORB', bpms)) / step


def pick(rng, arr, lo, hi, sort=False):
    n = min(len(arr), int(rng.integers(lo, hi + 1)))
    out = rng.choice(arr, n, replace=False)
    return np.sort(out) if sort else out


def jacobian(ctx):
    rng = ctx.rng
    n_cav = int(rng.choice([1, 1, 2, 3]))
    sc, o = gen.make_sc(rng, dict(corr_elements=bool(rng.random() < 0.5), n_cav=n_cav), scale=float(rng.choice([0.3, 1.0])), rf=n_cav == 1)
    for _ in range(int(rng.integers(0, 4))):
        gen.random_op(sc, o, rng)[1]()
    mode = str(rng.choice(['ORB', 'ORB', 'TBT']))
    skew = bool(rng.random() < 0.25)
    order = 1
    mags = pick(rng, o['sf'] if skew else np.concatenate((o['qf'], o['qd'])), 1, 5)
    if not skew and rng.random() < 0.2:
        mags, order = pick(rng, np.concatenate((o['sf'], o['sd'])), 1, 4), 2
    method = str(rng.choice(['add', 'add', 'abs', 'rel']))
    if method == 'rel' and skew:
        method = 'add'
    dk = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-4, -2.5))
    if method == 'rel':
        dk = 1 + dk
    if method == 'abs' and order == 1 and not skew:
        dk += 0.7 if rng.random() < 0.5 else 0.72
        mags = np.array([m for m in mags if m in o['qf']], dtype=int)
        if not len(mags):
            mags = o['qf'][:2]
    bpms = pick(rng, sc.ORD.BPM, 1, len(sc.ORD.BPM), sort=True)
    cms = [pick(rng, sc.ORD.HCM, 1, 3), pick(rng, sc.ORD.VCM, 1, 3)]
    kick = float(10 ** rng.uniform(-5, -4))
    disp = bool(rng.random() < 0.4)
    rf_step = float(rng.choice([-1, 1]) * rng.uniform(200, 2000))
    full = bool(rng.random() < 0.7)
    cav = None if rng.random() < 0.3 else pick(rng, sc.ORD.RF, 1, n_cav)
    cavs = sc.ORD.RF if cav is None else cav
    ctx.note(mode=mode, skew=skew, order=order, method=method, dk=dk, magnets=mags, dispersion=disp, full=full)
    base = SCgetModelRING(sc)
    try:
        C = own_rm(base, mode, bpms, cms, kick)
    except at.AtError:
        raise Skip('no orbit')
    if np.any(np.isnan(C)):
        raise Skip('no orbit')
    field, sfield = ('PolynomA', 'SetPointA') if skew else ('PolynomB', 'SetPointB')
    want = []
    for m in mags:
        now = getattr(sc.RING[m], sfield)[order]
        nominal = getattr(sc.RING[m], 'Nom' + field)[order]
        new = dict(add=now + dk, abs=dk, rel=nominal * dk)[method]
        r = fresh(base)
        p = np.array(getattr(r[m], field), dtype=float)
        p[order] = new
        setattr(r[m], field, p)
        d = own_rm(r, mode, bpms, cms, kick) - C
        if disp:
            d = np.hstack((d, (own_dispersion(r, bpms, cavs, rf_step) - own_dispersion(base, bpms, cavs, rf_step))[:, None]))
        want.append(d / dk)
    want = np.array(want)
    if np.any(np.isnan(want)):
        raise Skip('no orbit')
    before = snap.machine(sc)
    kw = dict(trackMode=mode, useIdealRing=False, skewness=skew, order=order, method=method, includeDispersion=disp, rf_step=rf_step, cav_ords=cav, full_jacobian=full)
    got = {}
    cpus = [1, int(rng.integers(2, 4))] if rng.random() < 0.6 else [int(rng.integers(2, 6))]
    for n in cpus:
        with mock.patch.object(os, 'cpu_count', lambda: n):
            if hasattr(os, 'process_cpu_count'):
                with mock.patch.object(os, 'process_cpu_count', lambda: n):
                    got[n] = np.array(loco.calculate_jacobian(sc, C.copy(), kick, cms, bpms, mags, dk, **kw))
            else:
                got[n] = np.array(loco.calculate_jacobian(sc, C.copy(), kick, cms, bpms, mags, dk, **kw))
    d = snap.diff(before, snap.machine(sc))
    ctx.check(not d, f'the machine was changed: {snap.describe(d)}')
    n_cm, n_b = len(cms[0]) + len(cms[1]), 2 * len(bpms)
    Cd = np.hstack((C, own_dispersion(base, bpms, cavs, rf_step)[:, None])) if disp else C
    scale = np.max(np.abs(C))
    for n, J in got.items():
        ctx.check(J.shape == ((len(mags) + (n_cm + n_b) * full,) + Cd.shape), f'Jacobian shape {J.shape} with {n} processes')
        # orbits are found to about 1e-12 (relative to steps)
        ctx.close(J[:len(mags), :, :n_cm], want[:, :, :n_cm], f'magnet rows with {n} processes', rtol=1e-6, atol=(1e-10 / kick if mode == 'ORB' else 1e-14 / kick) / abs(dk) + 1e-9 * scale / abs(dk))
        if disp:
            ctx.close(J[:len(mags), :, n_cm], want[:, :, n_cm], f'dispersion with {n} processes', rtol=1e-6, atol=2e-10 / abs(rf_step * dk))
        if full:
            for i in range(n_cm):
                w = np.zeros(Cd.shape)
                w[:, i] = Cd[:, i]
                ctx.close(J[len(mags) + i], w, f'corrector row {i}', rtol=1e-6, atol=1e-9 * scale)
            for i in range(n_b):
                w = np.zeros(Cd.shape)
                w[i] = Cd[i]
                ctx.close(J[len(mags) + n_cm + i], w, f'monitor row {i}', rtol=1e-6, atol=1e-9 * scale)
    ns = list(got)
    if len(ns) == 2:
        ctx.close(got[ns[0]][:, :, :n_cm], got[ns[1]][:, :, :n_cm], 'Jacobian depends on the number of processes', rtol=1e-9, atol=1e-9 * scale)
    ctx.event('matrices', len(mags))
    ctx.sig(mode, skew, order, method, disp, full, len(mags), ctx.idx)


def ideal_jacobian(ctx):
    """With the ideal ring, the step of the magnet has to be seen as well."""
    rng = ctx.rng
    sc, o = gen.make_sc(rng, scale=0.3)
    cms, bpms = [sc.ORD.HCM[:1], sc.ORD.VCM[:1]], sc.ORD.BPM[:3]
    ctx.sig(ctx.idx)
    C = SCgetModelRM(sc, bpms, cms, trackMode='ORB')
    J = np.array(loco.calculate_jacobian(sc, C, 1e-5, cms, bpms, o['qf'][:1], 1e-3, full_jacobian=False))
    ctx.check(np.max(np.abs(J)) > 1e-3, 'calculate_jacobian(useIdealRing=True) gives no response to any magnet', key='jacobian_ideal_ring')


def problem(ctx):
    rng = ctx.rng
    nq, nc, nb = int(rng.integers(1, 7)), int(rng.integers(1, 6)), int(rng.integers(1, 7)) * 2
    J = rng.normal(size=(nq + nc + nb, nb, nc)) * 10 ** rng.uniform(-1, 1)
    model = rng.normal(size=(nb, nc)) * 10 ** rng.uniform(-1, 1)
    if rng.random() < 0.5:  # structure of a real Jacobian
        for i in range(nc):
            J[nq + i] = 0
            J[nq + i, :, i] = model[:, i]
        for i in range(nb):
            J[nq + nc + i] = 0
            J[nq + nc + i, i] = model[i]
    groups = [g for g in ('quads', 'cor', 'bpm') if rng.random() < 0.6] or ['quads']
    if groups == ['cor', 'bpm'] or len(groups) == 3 and rng.random() < 0.5:
        groups = groups[:2]
    rng.shuffle(groups)
    lengths = [nq, nc, nb]
    mask = np.concatenate((np.full(nq, 'quads' in groups), np.full(nc, 'cor' in groups), np.full(nb, 'bpm' in groups)))
    k = int(rng.integers(3))
    w = np.ones(nb) if k == 0 else np.full(nb, rng.uniform(0.2, 5)) if k == 1 else 10 ** rng.uniform(-1, 1, nb)
    weights = float(w[0]) if k < 2 and rng.random() < 0.6 else np.diag(w)
    A = (np.sqrt(w)[None, :, None] * J[mask]).reshape(mask.sum(), -1).T
    return J, model, groups, lengths, mask, w, weights, A


def fits(ctx):
    rng = ctx.rng
    J, model, groups, lengths, mask, w, weights, A = problem(ctx)
    n = int(mask.sum())
    sv = np.linalg.svd(A, compute_uv=False)
    well = A.shape[0] >= n and sv[-1] > 1e-3 * sv[0]
    p = np.zeros(len(mask))
    p[mask] = rng.normal(size=n) * 10 ** rng.uniform(-4, -1)
    consistent = rng.random() < 0.5
    data = model + np.einsum('ijk,i->jk', J, p) + (0 if consistent else 1) * rng.normal(size=model.shape) * 1e-2
    start = rng.normal(size=len(mask)) * 1e-2 if rng.random() < 0.7 else np.zeros(len(mask))
    y = (np.sqrt(w)[:, None] * (data - model)).ravel()
    args = [start.copy(), model.copy(), data.copy(), J.copy(), list(lengths), list(groups)]
    ctx.note(groups=groups, lengths=lengths, consistent=consistent, weights=w[:3], well=well)
    atol = 1e-9 * (1 + np.abs(p).max())

    def unchanged(what):
        for a, b in zip(args[:4], (start, model, data, J)):
            ctx.check(np.array_equal(a, b), f'{what} changes its input')
    if well:
        best = np.linalg.lstsq(A, y, rcond=None)[0]
        got = loco.loco_correction_lm(*args, weights=weights, verbose=0) if not rng.random() < 0.3 else \
            loco.loco_correction_lm(*args, bounds=(-10, 10), weights=weights, verbose=0)
        unchanged('loco_correction_lm')
        ctx.check(np.shape(got) == (n,), f'loco_correction_lm: shape {np.shape(got)} for {n} parameters')
        ctx.close(got, best, 'Levenberg-Marquardt fit', rtol=1e-6, atol=1e-7 * np.abs(best).max())
        got = loco.loco_correction_ng(*args, n + int(rng.integers(0, 3)), weights=weights)
        unchanged('loco_correction_ng')
        cond = (sv[0] / sv[-1]) ** 2
        ctx.close(got, best, 'Gauss-Newton fit', rtol=1e-12 * cond + 1e-9, atol=1e-12 * cond * np.abs(best).max() + 1e-13)
        if consistent:
            ctx.close(got, p[mask], 'known parameters', rtol=1e-6 + 1e-12 * cond, atol=atol + 1e-12 * cond)
        ctx.event('exact fits')
    # damping and truncation: documented formula around the starting point
    s_cut = int(rng.integers(1, n + 1))
    lam = 0.0 if rng.random() < 0.4 else float(10 ** rng.uniform(-3, 1))
    M = A.T @ A
    M = M + lam * np.diag(np.diag(M))
    u, s, vt = np.linalg.svd(M)
    keep = min(s_cut, int(np.sum(s > 1e-8 * s[0])))
    if s_cut < n and s[s_cut] > 0.999 * s[s_cut - 1] or s[keep - 1] < 1e-9 * s[0] or (s_cut > keep):
        if not well:
            raise Skip('degenerate truncation')
    else:
        inv = vt[:keep].T @ np.diag(1 / s[:keep]) @ u[:, :keep].T
        want = start[mask] + inv @ (A.T @ (y - A @ start[mask]))
        got = loco.loco_correction_ng(*args, s_cut, weights=weights, LM_lambda=lam)
        unchanged('loco_correction_ng')
        ctx.close(got, want, f'damped fit (lambda {lam}, {s_cut} of {n} values)', rtol=1e-6, atol=1e-8 * (np.abs(want).max() + 1e-6) * max(1.0, s[0] / s[keep - 1] * 1e-6))
        ctx.event('damped fits')
    ctx.sig(groups, lengths, consistent, well, s_cut, lam, ctx.idx)


def application(ctx):
    rng = ctx.rng
    sc, o = gen.make_sc(rng, dict(cf_bends=bool(rng.random() < 0.5)), cf=bool(rng.random() < 0.5), bend_hcm=bool(rng.random() < 0.5))
    quads = np.concatenate((o['qf'], o['qd']))
    skew = bool(rng.random() < 0.3)
    pool = o['sf'] if skew else quads
    order = 1
    if not skew and rng.random() < 0.25:
        pool, order = np.concatenate((o['sf'], o['sd'])), 2
    if not skew and order == 1 and rng.random() < 0.3:
        pool = rng.permutation(np.concatenate((pool, o['bend'])))
    comp = bool(rng.random() < 0.5)
    kw = {} if comp and rng.random() < 0.5 else dict(dipole_compensation=comp)
    if skew or order != 1 or rng.random() < 0.3:
        kw.update(skewness=skew, order=order)
    f = 'SetPointA' if skew else 'SetPointB'
    fams = bool(rng.random() < 0.5)
    before, own = snap.machine(sc), sc.very_deep_copy()
    old = {int(i): getattr(sc.RING[i], f).copy() for i in range(len(sc.RING)) if hasattr(sc.RING[i], f)}
    if fams:
        ind = [pick(rng, pool[:len(pool) // 2], 1, 4), pick(rng, pool[len(pool) // 2:], 1, 4)]
        if rng.random() < 0.3:
            ind = ind[:1]
        r = rng.normal(size=len(ind)) * 1e-2
        change = {int(m): r[k] for k in range(len(ind)) for m in ind[k]}
        res = loco.set_correction(sc, r, ind, individuals=False, **kw)
    else:
        ind = pick(rng, pool, 1, 6)
        r = rng.normal(size=len(ind)) * 1e-2
        change = {int(m): r[k] for k, m in enumerate(ind)}
        res = loco.set_correction(sc, r, ind, **kw)
    ctx.note(families=fams, skew=skew, order=order, compensation=comp, ind=[np.asarray(k) for k in ind])
    ctx.check(res is sc, 'set_correction returns another machine')
    for m, v in change.items():
        own.set_magnet_setpoints(m, -v, skew, order, 'add', dipole_compensation=comp)
    d = snap.diff(snap.machine(own), snap.machine(sc), rtol=1e-10, atol=1e-13)
    ctx.check(not d, f'set_correction differs from changing the magnets one by one: {snap.describe(d)}')
    allowed = set(change)
    for m, v in change.items():
        want = old[m].copy()
        want[order] -= v
        got = getattr(sc.RING[m], f).copy()
        if not skew and order == 1 and comp and m in o['bend']:
            want[0], got[0] = 0, 0  # feed-down compensation in combined function magnets: C05
        ctx.close(got, want, f'{f} of magnet {m}', rtol=1e-12, atol=1e-15)
    for path, a, b in snap.diff(before, snap.machine(sc), rtol=1e-12, atol=1e-15):
        idx = next((int(q) for q in path if isinstance(q, (int, np.integer))), -1)
        ctx.check(idx in allowed, f'set_correction changed {path}')
    ctx.sig(fams, skew, order, comp, ctx.idx)


def closed_loop(ctx):
    """Measurement, fit and correction repeated: quadrupole gradients become those of the design and calibrations are found."""
    rng = ctx.rng
    sc = gen.make_ideal_sc(rng, corr_elements=bool(rng.random() < 0.5), sext=(0.0, 0.0))
    r = sc.RING
    qf, qd, bpm = gen.ords(r, 'QF'), gen.ords(r, 'QD'), gen.ords(r, 'BPM')
    cor = gen.ords(r, 'COR')
    cal = np.zeros(3)
    cal[1] = 5e-3
    sc.register_bpms(bpm, CalError=5e-3 * np.ones(2))
    cm = cor if len(cor) else np.concatenate((qf, qd))
    if len(cor):
        sc.register_magnets(cor, HCM=1e-2, VCM=1e-2, CalErrorA=np.array([5e-3, 0]), CalErrorB=np.array([5e-3, 0]))
        sc.register_magnets(np.concatenate((qf, qd)), CalErrorB=cal)
    else:
        sc.register_magnets(np.concatenate((qf, qd)), HCM=1e-2, VCM=1e-2, CalErrorB=cal)
    sc.register_cavities(gen.ords(r, 'RFCav'))
    sc.apply_errors()
    sc.INJ.trackMode = 'ORB'
    cms = [np.sort(pick(rng, cm, 4, 6)), np.sort(pick(rng, cm, 4, 6))]
    ring = sc.IDEALRING
    quads = np.concatenate((qf, qd))
    kick, dk = 1e-5, 1e-4
    model = SCgetModelRM(sc, bpm, cms, trackMode='ORB', dkick=kick)
    J = loco.calculate_jacobian(sc, model, kick, cms, bpm, quads, dk, useIdealRing=False)
    lengths = [len(quads), len(cms[0]) + len(cms[1]), 2 * len(bpm)]
    groups = ['quads', 'cor', 'bpm']
    weights = np.diag(rng.uniform(0.5, 2, lengths[2])) if rng.random() < 0.5 else 1
    guess = np.full(sum(lengths), 1e-6)
    ng = rng.random() < 0.5
    tw = at.get_optics(ring, bpm)[2]
    beat = [loco.model_beta_beat(sc.RING, tw, bpm)]
    grad0 = np.array([sc.RING[q].PolynomB[1] / ring[q].PolynomB[1] - 1 for q in quads])
    sv = np.linalg.svd((np.sqrt(np.diag(weights) if np.ndim(weights) else np.ones(lengths[2]))[None, :, None] * J).reshape(sum(lengths), -1), compute_uv=False)
    # one global factor of monitors and correctors cannot be told apart in each plane
    n_bad = int(np.sum(sv < 1e-6 * sv[0]))
    if n_bad > 2 or sv[-3] < 3e-4 * sv[0]:
        raise Skip('parameters not determined')
    for _ in range(4):
        meas = loco.measure_closed_orbit_response_matrix(sc, bpm, cms, kick)
        if ng:
            fit = loco.loco_correction_ng(guess, model, meas, J, lengths, groups, sum(lengths) - 2, weights=weights)
        else:
            fit = loco.loco_correction_lm(guess, model, meas, J, lengths, groups, weights=weights, verbose=0)
        loco.set_correction(sc, fit[:len(quads)], quads)
        beat.append(loco.model_beta_beat(sc.RING, tw, bpm))
    grad = np.array([sc.RING[q].PolynomB[1] / ring[q].PolynomB[1] - 1 for q in quads])
    ctx.note(method='ng' if ng else 'lm', beat=np.array(beat)[:, 0], before=np.std(grad0), after=np.std(grad), worst=sv[-3] / sv[0])
    ctx.check(np.max(np.abs(grad)) < 0.02 * np.max(np.abs(grad0)) + 1e-6, f'gradients differ from design by {np.max(np.abs(grad)):.2e} after correction ({np.max(np.abs(grad0)):.2e} before)')
    ctx.check(max(beat[-1]) < 0.02 * max(beat[0]) + 1e-5, f'beta beat {beat[0]} -> {beat[-1]}')
    # calibrations, relative to the mean which is not determined
    nc = len(cms[0])
    for lo, hi, true in ((0, nc, [c.CalErrorB[0] for c in (sc.RING[i] for i in cms[0])]),
                         (nc, lengths[1], [c.CalErrorA[0] for c in (sc.RING[i] for i in cms[1])])):
        got = fit[len(quads) + lo:len(quads) + hi]
        ctx.close(got - np.mean(got), np.array(true) - np.mean(true), 'corrector calibration errors', rtol=0.05, atol=3e-4)
    for plane in range(2):
        got = fit[len(quads) + lengths[1]:][plane * len(bpm):(plane + 1) * len(bpm)]
        true = np.array([sc.RING[b].CalError[plane] for b in bpm])
        ctx.close(got - np.mean(got), true - np.mean(true), 'monitor calibration errors', rtol=0.05, atol=3e-4)
    ctx.event('loops')
    ctx.sig(ng, len(quads), lengths, ctx.idx)


def beta_beat(ctx):
    rng = ctx.rng
    sc, o = gen.make_sc(rng, dict(sext=(0.0, 0.0)), scale=float(rng.choice([0.1, 1.0])), rf=False)
    pts = pick(rng, np.arange(len(sc.RING)), 1, 30, sort=True)
    for q in np.concatenate((o['qf'], o['qd'])):
        sc.set_magnet_setpoints(int(q), 1 + rng.normal() * 2e-3, False, 1, 'rel')
    try:
        b0 = at.get_optics(fresh(sc.IDEALRING), pts)[2].beta
        b1 = at.get_optics(fresh(sc.RING), pts)[2].beta
    except Exception:
        raise Skip('no optics')
    if np.any(~np.isfinite(b1)):
        raise Skip('no optics')
    before = snap.machine(sc)
    tw = at.get_optics(sc.IDEALRING, pts)[2]
    ref = tw.beta.copy()
    got = loco.model_beta_beat(sc.RING, tw, pts, **(dict(plot=True) if rng.random() < 0.2 else {}))
    ctx.check(not snap.diff(before, snap.machine(sc)), 'model_beta_beat changed the machine')
    ctx.check(np.array_equal(ref, tw.beta), 'model_beta_beat changed the reference optics')
    want = [np.sqrt(np.mean(((b1[:, k] - b0[:, k]) / b0[:, k]) ** 2)) for k in range(2)]
    ctx.close(np.array(got), want, 'beta beat', rtol=1e-7, atol=1e-10)
    self0 = loco.model_beta_beat(sc.IDEALRING, tw, pts)
    ctx.close(np.array(self0), np.zeros(2), 'beta beat of the design', atol=1e-9)
    total = np.arange(int(rng.integers(2, 40)))
    num = int(rng.integers(2, len(total) + 1))
    sel = loco.select_equally_spaced_elements(total, num)
    ctx.check(sel[0] == 0 and set(sel) <= set(total) and len(set(np.diff(sel))) <= 1, f'elements {sel} for {num} of {len(total)}')
    ctx.check(np.all(np.diff(sel) == len(total) // (num - 1)), f'spacing {np.diff(sel)} for {num} of {len(total)}')
    ctx.sig(len(pts), len(total), num, ctx.idx)


def structures(ctx):
    """Structures, measurement and application of the wrapper for the MATLAB LOCO code."""
    rng = ctx.rng
    sc, o = gen.make_sc(rng, dict(corr_elements=bool(rng.random() < 0.5)), noise=False, scale=0.5)
    sc.SIG.randomInjectionZ = np.zeros(6)
    sc.INJ.randomInjectionZ = np.zeros(6)
    sc.INJ.nTurns = int(rng.integers(1, 3))
    sc.INJ.trackMode = str(rng.choice(['ORB', 'TBT']))
    for _ in range(int(rng.integers(0, 4))):
        gen.random_op(sc, o, rng)[1]()
    sc.INJ.randomInjectionZ = np.zeros(6)
    bpms = pick(rng, sc.ORD.BPM, 2, len(sc.ORD.BPM), sort=True)
    cms = [pick(rng, sc.ORD.HCM, 1, 4), pick(rng, sc.ORD.VCM, 1, 4)]
    before = snap.machine(sc)
    data, flags, init = loco_wrapper.loco_model(sc, Normalize=False, SVmethod=5)
    ctx.check(data.CavityFrequency == sc.IDEALRING[sc.ORD.RF[0]].Frequency and data.CavityHarmNumber == sc.IDEALRING[sc.ORD.RF[0]].HarmNumber, 'cavity data')
    ctx.check(data.Lattice is sc.IDEALRING and init.SC is sc and flags.Normalize is False and flags.SVmethod == 5 and flags.Coupling is False, 'model structure')
    b = loco_wrapper.loco_bpm_structure(sc, bpms if rng.random() < 0.7 else None)
    if len(b.BPMIndex) == len(sc.ORD.BPM):
        bpms = sc.ORD.BPM
    ctx.check(np.array_equal(b.BPMIndex, bpms) and b.BPMIndex is not sc.ORD.BPM, 'monitor indices')
    ctx.check(len(b.HBPMGain) == len(b.VBPMGain) == len(b.HBPMCoupling) == len(b.VBPMCoupling) == len(bpms) and np.all(b.HBPMGain == 1) and np.all(b.VBPMCoupling == 0), 'monitor structure')
    step = float(10 ** rng.uniform(-5.5, -4.5))
    k = int(rng.integers(3))
    cm_steps = step if k == 0 else [step] if k == 1 else [np.full(len(cms[0]), step), np.full(len(cms[1]), step * 0.7)]
    c = loco_wrapper.loco_cm_structure(sc, cms, cm_steps)
    want = [np.full(len(cms[0]), step), np.full(len(cms[1]), step * (0.7 if k == 2 else 1))]
    for f, n in (('H', 0), ('V', 1)):
        ctx.close(c[f + 'CMKicks'], 2000 * want[n], 'kicks in mrad, twice the step', rtol=1e-12)
        ctx.close(c[f + 'CMsteps'], want[n], 'steps', rtol=1e-12)
        ctx.check(np.array_equal(c[f + 'CMIndex'], cms[n]), 'corrector indices')
    sign = rng.choice([-1, 1], 2) if k == 2 and rng.random() < 0.5 else np.full(2, rng.choice([-1, 1], p=[0.3, 0.7]))
    amp = [g * c for g, c in zip(sign, cm_steps)] if k == 2 else step * sign[0]
    df = float(rng.uniform(100, 1000))
    from pySC.core.beam import bpm_reading
    try:
        ref = np.ravel(bpm_reading(sc, bpm_ords=bpms)[0])
    except at.AtError:
        raise Skip('no orbit')
    if np.any(np.isnan(ref)):
        raise Skip('no orbit')
    meas, steps = loco_wrapper.loco_measurement(sc, amp, df, bpms, cms)
    d = snap.diff(before, snap.machine(sc), rtol=1e-12, atol=1e-15)
    ctx.check(not d, f'loco_measurement changed the machine: {snap.describe(d)}')
    tol = dict(rtol=1e-6, atol=3e-7 * 1e-3 if sc.INJ.trackMode == 'ORB' else 1e-9)
    cols = []
    for n in range(2):
        f = 'SetPointA' if n else 'SetPointB'
        for j, m in enumerate(cms[n]):
            s0 = sc.get_cm_setpoints(m, bool(n))
            sc.set_cm_setpoints(m, s0 + sign[n] * want[n][j], bool(n))
            cols.append((np.ravel(bpm_reading(sc, bpm_ords=bpms)[0]) - ref) * 2000 * sign[n])
            sc.set_cm_setpoints(m, s0, bool(n))
    if np.any(np.isnan(cols)):
        raise Skip('beam lost')
    ctx.close(meas.M, np.array(cols).T, 'response in mm for twice the step', **tol)
    ctx.close(np.concatenate(steps), np.concatenate(want), 'steps used', rtol=1e-9)
    ctx.check(meas.RF == sc.RING[sc.ORD.RF[0]].Frequency and meas.DeltaRF == df and len(meas.BPMSTD) == 2 * len(bpms), 'measurement structure')
    rd = []
    for sgn in (1, -1):
        sc.set_cavity_setpoints(sc.ORD.RF, sgn * df, 'Frequency', 'add')
        rd.append(np.ravel(bpm_reading(sc, bpm_ords=bpms)[0]))
        sc.set_cavity_setpoints(sc.ORD.RF, -sgn * df, 'Frequency', 'add')
    ctx.close(meas.Eta, 1000 * (rd[0] - rd[1]) / 2, 'orbit change in mm for one frequency step', rtol=1e-6, atol=1e-7)
    ctx.sig(sc.INJ.trackMode, len(bpms), k, step, ctx.idx)


def diagnostic(ctx):
    """Fitted gains of correctors and monitors are removed from the machine."""
    rng = ctx.rng
    sc, o = gen.make_sc(rng, dict(corr_elements=bool(rng.random() < 0.5)), noise=False)
    bpms = pick(rng, sc.ORD.BPM, 2, len(sc.ORD.BPM))
    cms = [pick(rng, sc.ORD.HCM, 1, 4), pick(rng, sc.ORD.VCM, 1, 4)]
    scale = float(10 ** rng.uniform(-5, -4))
    single = bool(rng.random() < 0.5)
    steps = [np.full(len(c), scale) if single else scale * rng.uniform(0.5, 2, len(c)) for c in cms]
    fit_k, fit_g, fit_c = (bool(rng.random() < 0.7) for _ in range(3))
    C = loco_wrapper.loco_cm_structure(sc, cms, steps, FitKicks=fit_k)
    B = loco_wrapper.loco_bpm_structure(sc, bpms, FitGains=fit_g, **(dict(FitCoupling=fit_c) if fit_c or rng.random() < 0.5 else {}))
    exact = bool(rng.random() < 0.4)
    used = [np.arange(len(bpms))] * 2
    if rng.random() < 0.4:  # gains of some monitors only
        used = [pick(rng, np.arange(len(bpms)), 1, len(bpms)) for _ in range(2)]
        B['HBPMIndex'], B['VBPMIndex'] = used
    for n, f in enumerate('HV'):
        true = np.array([getattr(sc.RING[i], 'CalErrorA' if n else 'CalErrorB')[0] for i in cms[n]])
        C[f + 'CMKicks'] = 2000 * steps[n] * (1 + (true if exact else 0.05 * rng.normal(size=len(true))))
        true = np.array([sc.RING[i].CalError[n] for i in bpms[used[n]]])
        B[f + 'BPMGain'] = 1 + (true if exact else 0.05 * rng.normal(size=len(true)))
        true = np.array([np.ravel(sc.RING[i].Roll)[0] + np.ravel(sc.RING[i].SupportRoll)[0] for i in bpms])
        B[f + 'BPMCoupling'] = (true if n else -true) if exact else 0.05 * rng.normal(size=len(true))
    if not exact and rng.random() < 0.4:  # only one of the two couplings was found
        f = str(rng.choice(['H', 'V']))
        B[f + 'BPMCoupling'] = np.zeros(len(bpms))
    kw = {}
    if rng.random() < 0.3:
        kw['CMcalOffsets'] = [0.01 * rng.normal(size=len(c)) for c in cms]
    if rng.random() < 0.3:
        kw['meanToZero'] = True
    if rng.random() < 0.3:
        kw['outlierRemovalAt'] = float(rng.uniform(0.02, 0.08))
    ctx.note(kicks=fit_k, gains=fit_g, coupling=fit_c, exact=exact, options=list(kw))
    old = {}
    for n in range(2):
        for i in cms[n]:
            old['c', n, int(i)] = getattr(sc.RING[i], 'CalErrorA' if n else 'CalErrorB').copy()
        for i in bpms:
            old['b', n, int(i)] = float(sc.RING[i].CalError[n])
    rolls = {int(i): np.array(sc.RING[i].Roll, dtype=float) for i in bpms}
    data = snap.freeze((dict(C), dict(B)))
    before = snap.machine(sc)
    loco_wrapper.applyDiagnosticCorrection(sc, scale if single else steps, C, B, **kw)
    ctx.check(not snap.diff(data, snap.freeze((dict(C), dict(B)))), 'the fit result was changed')

    def treated(g):
        g = np.array(g)
        if 'outlierRemovalAt' in kw:
            g[np.abs(1 - g) >= kw['outlierRemovalAt']] = 1
        if kw.get('meanToZero'):
            g = g - np.mean(g) + 1
        return g
    for n, f in enumerate('HV'):
        g = C[f + 'CMKicks'] / 2000 / steps[n]
        if 'CMcalOffsets' in kw:
            g = g - kw['CMcalOffsets'][n]
        g = treated(g)
        for j, i in enumerate(cms[n]):
            want = old['c', n, int(i)].copy()
            want[0] += (1 - g[j]) * fit_k
            ctx.close(getattr(sc.RING[i], 'CalErrorA' if n else 'CalErrorB'), want, f'calibration of corrector {i}', rtol=1e-9, atol=1e-12)
            if exact and fit_k and not kw:
                ctx.close(want[0], 0, 'exact fit removes the calibration error', atol=1e-12)
        g = treated(B[f + 'BPMGain'])
        for j, i in enumerate(bpms):
            gain = g[list(used[n]).index(j)] if j in used[n] else 1.0
            ctx.close(sc.RING[i].CalError[n], old['b', n, int(i)] + (1 - gain) * fit_g, f'calibration of monitor {i}', rtol=1e-9, atol=1e-12)
    for j, i in enumerate(bpms):
        ctx.close(np.ravel(sc.RING[i].Roll), np.ravel(rolls[int(i)]) - fit_c * (B.VBPMCoupling[j] - B.HBPMCoupling[j]) / 2, f'roll of monitor {i}', rtol=1e-9, atol=1e-12)
        if exact and fit_c:
            ctx.close(np.ravel(sc.RING[i].Roll)[0] + np.ravel(sc.RING[i].SupportRoll)[0], 0, 'exact fit removes the roll', atol=1e-12)
    ok = set(int(i) for i in np.concatenate((cms[0], cms[1], bpms)))
    for path, a, b in snap.diff(before, snap.machine(sc), rtol=1e-12, atol=1e-15):
        idx = next((int(q) for q in path if isinstance(q, (int, np.integer))), -1)
        ctx.check(idx in ok and path[-1 if isinstance(path[-1], str) else 3] is not None, f'applyDiagnosticCorrection changed {path}')
    ctx.raises(ValueError, lambda: loco_wrapper.applyDiagnosticCorrection(sc, np.ones(3), C, B), 'steps neither single nor list')
    ctx.sig(fit_k, fit_g, fit_c, exact, sorted(kw), ctx.idx)


def lattice_correction(ctx):
    rng = ctx.rng
    sc, o = gen.make_sc(rng, dict(cf_bends=bool(rng.random() < 0.5)), cf=bool(rng.random() < 0.5))
    fp = DotDict(Params=[], OrigValues=[], IdealValues=[], Values=[])
    want, f_of = {}, {}
    used = set()
    damping = float(rng.choice([1, 0.3, 0.7]))
    for _ in range(int(rng.integers(1, 4))):
        skew = bool(rng.random() < 0.3)
        pool = o['sf'] if skew else np.concatenate((o['qf'], o['qd']))
        mem = [int(m) for m in pick(rng, pool, 1, 3) if int(m) not in used]
        used |= set(mem)
        fp.Params.append([DotDict(ElemIndex=m, SCFieldName='SetPointA' if skew else 'SetPointB') for m in mem])
        v = rng.normal(size=3) * 0.01 + (0 if skew else 0.7)
        for lst, x in zip((fp.OrigValues, fp.IdealValues, fp.Values), v):
            lst.append(float(x))
        for m in mem:
            want[m], f_of[m] = v[0] + damping * (v[1] - v[2]), 'A' if skew else 'B'
    if not want:
        raise Skip('nothing chosen')
    before = snap.machine(sc)
    old = {m: getattr(sc.RING[m], 'SetPoint' + f_of[m]).copy() for m in want}
    kw = dict(damping=damping) if damping != 1 else {}
    res = loco_wrapper.apply_lattice_correction(sc, fp, dipole_compensation=bool(rng.random() < 0.5), **kw)
    ctx.check(res is sc, 'another machine is returned')
    for m in want:
        w = old[m].copy()
        w[1] = want[m]
        got = getattr(sc.RING[m], 'SetPoint' + f_of[m])
        ctx.close(got, w, f'setpoints of magnet {m}', rtol=1e-12, atol=1e-15)
    for path, a, b in snap.diff(before, snap.machine(sc), rtol=1e-12, atol=1e-15):
        idx = next((int(q) for q in path if isinstance(q, (int, np.integer))), -1)
        ctx.check(idx in want, f'apply_lattice_correction changed {path}')
    ctx.note(groups=len(fp.Params), damping=damping)
    ctx.sig(len(want), damping, ctx.idx)


def fit_parameters(ctx):
    sc, o = gen.make_sc(ctx.rng, scale=0.3)
    data = loco_wrapper.loco_model(sc)[0]
    ctx.sig(ctx.idx)
    try:
        fp = loco_wrapper.loco_fit_parameters(sc, sc.RING, data, 1e3, [o['qf'][:2], False, None, 'individual', 1e-3])
    except AttributeError as e:
        ctx.fail(f'loco_fit_parameters cannot be used: {e}', key='loco_fit_parameters')
    ctx.check(len(fp.Params) == 2 and fp.Params[0][0].ElemIndex == o['qf'][0], 'groups')


SCENARIOS = dict(jacobian=Scenario(jacobian, 60, 800), ideal_jacobian=Scenario(ideal_jacobian, 1, 3), fits=Scenario(fits, 500, 20000),
                 application=Scenario(application, 80, 2000), closed_loop=Scenario(closed_loop, 12, 150), beta_beat=Scenario(beta_beat, 30, 600),
                 structures=Scenario(structures, 40, 600), diagnostic=Scenario(diagnostic, 100, 3000), lattice_correction=Scenario(lattice_correction, 40, 800),
                 fit_parameters=Scenario(fit_parameters, 1, 1))
