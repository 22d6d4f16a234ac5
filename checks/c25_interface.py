"""C25: every function of the MATLAB-style interface and its Python counterpart run on identical machines with identical seeds; results, exceptions and complete states compared."""
import os
import tempfile
import numpy as np
import at
from matplotlib import pyplot as plt
from vlib import gen, snap
from vlib.common import Scenario, Skip
from pySC import matlab_index as m
from pySC.core.beam import beam_transmission, bpm_reading, generate_bunches
from pySC.core.lattice_setting import switch_cavity_and_radiation
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.correction import orbit_trajectory
from pySC.correction.bba import fake_bba, orbit_bba, trajectory_bba
from pySC.correction.injection_fit import fit_injection_drift, fit_injection_trajectory
from pySC.correction.ramp_errors import SCrampUpErrors
from pySC.correction.rf import correct_rf_frequency, correct_rf_phase
from pySC.correction.tune import tune_scan
from pySC.lattice_properties.apertures import SCdynamicAperture, SCmomentumAperture
from pySC.lattice_properties.magnet_orbit import SCgetCOD
from pySC.lattice_properties.response_measurement import dispersion, response_matrix
from pySC.lattice_properties.response_model import SCgetModelDispersion, SCgetModelRING, SCgetModelRM
from pySC.plotting.plot_lattice import plot_cm_strengths, plot_lattice
from pySC.plotting.plot_phase_space import plot_phase_space
from pySC.plotting.plot_support import plot_support
from pySC.utils import sc_tools
from pySC.core.classes import DotDict

PID = 'C25'
RULE = ('each function with random arguments (positional, by name and omitted), random machines and machine states, valid and invalid conventions; both sides are '
        'run on copies of the same machine. Distinct by function and arguments; non-trivial when results and machines were compared.')
ASSUMPTIONS = []


def machine(ctx, apply=True, ring_kw=None, **kw):
    rng = ctx.rng
    sc, o = gen.make_sc(rng, dict(corr_elements=bool(rng.random() < 0.4), split_bends=bool(rng.random() < 0.2), n_cav=int(rng.choice([1, 2, 3]))) | (ring_kw or {}), apply=apply, scale=float(rng.choice([0.3, 1.0])), **kw)
    o['some_cav'] = pick(rng, o['cav'], 1, len(o['cav']), sort=True)
    sc.INJ.nParticles = int(rng.choice([1, 1, 3]))
    sc.INJ.nTurns = int(rng.choice([1, 2, 3]))
    sc.INJ.nShots = int(rng.choice([1, 1, 2]))
    sc.INJ.trackMode = str(rng.choice(['TBT', 'TBT', 'ORB', 'PORB']))
    if apply:
        for _ in range(int(rng.integers(0, 4))):
            gen.random_op(sc, o, rng)[1]()
    return sc, o


def outcome(f, sc):
    try:
        return 'value', f(sc)
    except Exception as e:
        if isinstance(e, TypeError) and 'argument' in str(e):
            raise
        return 'error', e


def figures():
    """Everything drawn: all lines and scatter positions of the open figures."""
    out = []
    for n in plt.get_fignums():
        fig = plt.figure(n)
        for ax in fig.axes:
            out.append([ax.get_title(), ax.get_xlim(), ax.get_ylim(), [np.asarray(l.get_xydata(), dtype=float) for l in ax.get_lines()], [t.get_text() for t in ax.texts],
                        [np.asarray(c.get_offsets(), dtype=float) for c in ax.collections]])
    plt.close('all')
    return snap.freeze(out)


def compare(ctx, name, sc, mat, py, returns_machine=False, plots=False):
    """mat and py are called on copies of sc with the same random state."""
    seed = int(ctx.rng.integers(2 ** 31))
    a, b = sc.very_deep_copy(), sc.very_deep_copy()
    np.random.seed(seed)
    plt.close('all')
    kind_b, res_b = outcome(py, b)
    rnd_b = np.random.random()
    fig_b = figures() if plots else None
    np.random.seed(seed)
    kind_a, res_a = outcome(mat, a)
    rnd_a = np.random.random()
    fig_a = figures() if plots else None
    plt.close('all')
    ctx.check(kind_a == kind_b, f'{name}: {kind_a} ({str(res_a)[:150]}) but Python counterpart {kind_b} ({str(res_b)[:150]})')
    if kind_a == 'error':
        ctx.check(type(res_a) is type(res_b), f'{name} raised {res_a!r}, Python counterpart {res_b!r}')
        ctx.event('both raised')
    else:
        pa, pb = res_a, res_b
        if returns_machine:
            first = pa[0] if isinstance(pa, tuple) else pa
            ctx.check(first is a, f'{name} does not return the machine it got')
        conv = lambda x, me: ('machine' if x is me else snap.machine(x) if isinstance(x, SimulatedCommissioning) else snap.ring(x) if isinstance(x, at.Lattice) else snap.freeze(x))
        for k, (x, y) in enumerate(zip(pa, pb) if isinstance(pa, tuple) else [(pa, pb)]):
            d = snap.diff(conv(x, a), conv(y, b), rtol=1e-13, atol=0.0)
            ctx.check(not d, f'{name} result {k}: {snap.describe(d)}')
        ctx.check(not isinstance(pa, tuple) or len(pa) == len(pb), f'{name}: {len(pa) if isinstance(pa, tuple) else 1} results')
    d = snap.diff(snap.machine(a), snap.machine(b), rtol=1e-13, atol=0.0)
    ctx.check(not d, f'{name} leaves another machine than the Python counterpart: {snap.describe(d)}')
    ctx.check(rnd_a == rnd_b, f'{name} uses other random numbers than the Python counterpart')
    if plots:
        d = snap.diff(fig_a, fig_b, rtol=1e-9, atol=1e-12)
        ctx.check(not d, f'{name} draws something else: {snap.describe(d)}')
    ctx.event(name)
    return a, res_a


def maybe(rng, **kw):
    """A random subset of the keyword arguments."""
    return {k: v for k, v in kw.items() if rng.random() < 0.6}


def ren(kw, **names):
    return {names[k]: v for k, v in kw.items() if k in names}


def pick(rng, arr, lo, hi, sort=False):
    out = rng.choice(arr, min(len(arr), int(rng.integers(lo, hi + 1))), replace=False)
    return np.sort(out) if sort else out


def setters(ctx):
    rng = ctx.rng
    k = ctx.idx % 8
    cf = k == 2 and rng.random() < 0.5
    sc, o = machine(ctx, ring_kw=dict(cf_bends=True, split_bends=False), cf=True, bend_hcm=True) if cf else machine(ctx)
    method = str(rng.choice(['abs', 'rel', 'add']))
    if k == 0:
        n_dim = int(rng.integers(1, 3))
        cms = pick(rng, sc.ORD.HCM if n_dim == 1 else sc.ORD.VCM, 1, 5)
        val = 1e-4 * rng.normal(size=len(cms)) if rng.random() < 0.7 else np.array([1e-4 * rng.normal()])
        kw = {} if method == 'abs' and rng.random() < 0.5 else dict(mode=method)
        a, res = compare(ctx, 'SCsetCMs2SetPoints', sc, lambda s: m.SCsetCMs2SetPoints(s, cms, val, n_dim, **kw),
                         lambda s: (s.set_cm_setpoints(cms, val, n_dim == 2, method), s, s.get_cm_setpoints(cms, n_dim == 2))[1:], True)
        if method == 'abs':
            ctx.close(res[1], np.clip(np.broadcast_to(val, cms.shape), *[s * np.array([sc.RING[i].CMlimit[n_dim - 1] for i in cms]) for s in (-1, 1)]), 'set corrector values', rtol=1e-9)
        for bad in (0, 3):
            ctx.raises(ValueError, lambda: m.SCsetCMs2SetPoints(a, cms, val, bad), f'plane {bad}')
        what = (n_dim, method)
    elif k == 1:
        n_dim = int(rng.integers(1, 3))
        cms = pick(rng, sc.ORD.HCM if n_dim == 1 else sc.ORD.VCM, 1, 5)
        compare(ctx, 'SCgetCMSetPoints', sc, lambda s: m.SCgetCMSetPoints(s, cms, n_dim), lambda s: s.get_cm_setpoints(cms, n_dim == 2))
        for bad in (0, 3):
            ctx.raises(ValueError, lambda: m.SCgetCMSetPoints(sc, cms, bad), f'plane {bad}')
        what = n_dim
    elif k == 2:
        typ = 2 if cf else int(rng.integers(1, 3))
        order = int(rng.integers(2, 4)) if typ == 2 and not cf else 2
        mags = pick(rng, np.concatenate((o['sf'], o['sd'])) if order == 3 else np.concatenate((o['qf'], o['qd'])) if typ == 2 else o['sf'], 1, 5)
        if cf:
            mags = pick(rng, o['bend'], 1, 5)
        kw = maybe(rng, method=method, dipCompensation=bool(rng.random() < 0.7))
        full = dict(method='abs', dipCompensation=False) | kw
        val = (1 + 1e-2 * rng.normal(size=len(mags))) if full['method'] == 'rel' else 1e-2 * rng.uniform(-1, 1, len(mags))
        a, _ = compare(ctx, 'SCsetMags2SetPoints', sc, lambda s: m.SCsetMags2SetPoints(s, mags, typ, order, val, **kw),
                       lambda s: (s.set_magnet_setpoints(mags, val, typ == 1, order - 1, full['method'], full['dipCompensation']), s)[1], True)
        if full['method'] == 'abs':
            ctx.close([(a.RING[i].SetPointA if typ == 1 else a.RING[i].SetPointB)[order - 1] for i in mags], val, 'setpoints', rtol=1e-12)
        for bad in (0, 3):
            ctx.raises(ValueError, lambda: m.SCsetMags2SetPoints(a, mags, bad, order, val), f'type {bad}')
        what = (typ, order, kw)
    elif k == 3:
        typ = str(rng.choice(['Frequency', 'Voltage', 'TimeLag']))
        val = dict(Frequency=10.0, Voltage=1e3, TimeLag=1e-3)[typ] * rng.normal() + (0 if method == 'add' else 1.0 if method == 'rel' else getattr(sc.RING[o['cav'][0]], typ))
        kw = {} if method == 'abs' and rng.random() < 0.5 else dict(mode=method)
        compare(ctx, 'SCsetCavs2SetPoints', sc, lambda s: m.SCsetCavs2SetPoints(s, o['some_cav'], typ, val, **kw), lambda s: (s.set_cavity_setpoints(o['some_cav'], val, typ, method), s)[1], True)
        what = (typ, method)
    elif k == 4:
        mags = pick(rng, sc.ORD.Magnet, 1, 6)
        for i in mags:
            sc.RING[i].SetPointB = sc.RING[i].SetPointB + 1e-3 * rng.normal(size=len(sc.RING[i].SetPointB)) * (sc.RING[i].SetPointB != 0)
        for i in o['cav']:
            sc.RING[i].FrequencySetPoint += 10.0
        args = () if rng.random() < 0.4 else (mags[:int(rng.integers(1, len(mags) + 1))],)
        a, _ = compare(ctx, 'SCupdateMagnets', sc, lambda s: m.SCupdateMagnets(s, *args), lambda s: (s.update_magnets(*args), s)[1], True)
        args = () if rng.random() < 0.4 else (o['some_cav'],)
        compare(ctx, 'SCupdateCAVs', a, lambda s: m.SCupdateCAVs(s, *args), lambda s: (s.update_cavities(*args), s)[1], True)
        what = len(args)
    elif k == 5:
        g = np.ravel(o['Girder'])
        for e in g:
            sc.RING[e].GirderOffset = sc.RING[e].GirderOffset + 1e-4 * rng.normal(size=3)
        args = [(), (True, True), (False, True), (True, False), (False, False)][int(rng.integers(5))]
        kw = dict(zip(('BPMstructOffset', 'MAGstructOffset'), args)) if rng.random() < 0.5 else None
        f = (lambda s: m.SCupdateSupport(s, **kw)) if kw is not None else (lambda s: m.SCupdateSupport(s, *args))
        full = args or (True, True)
        compare(ctx, 'SCupdateSupport', sc, f, lambda s: (s.update_supports(offset_bpms=full[0], offset_magnets=full[1]), s)[1], True)
        what = args
    elif k == 6:
        n = [2, 3, 5, 1, 0.5][int(rng.integers(5))]
        args = () if n == 2 and rng.random() < 0.5 else (n,)
        compare(ctx, 'SCapplyErrors', sc, lambda s: m.SCapplyErrors(s, *args), lambda s: (s.apply_errors(n), s)[1], True)
        what = n
    else:
        mags = pick(rng, np.concatenate((o['sf'], o['qf'])), 1, 4)
        n = int(rng.integers(2, 7))
        AB = 1e-3 * rng.normal(size=(n, 2))
        keep = AB.copy()
        if rng.random() < 0.5:
            kw = {} if rng.random() < 0.5 else dict(method='rnd')
            a, _ = compare(ctx, 'SCsetMultipoles', sc, lambda s: m.SCsetMultipoles(s, mags, AB, **kw), lambda s: (s.set_random_multipole_errors(mags, AB[:, ::-1].copy()), s)[1], True)
            what = 'random'
        else:
            typ, order = (2, 2) if rng.random() < 0.6 else (1, 1)
            order = int(rng.integers(1, n + 1))
            typ = int(rng.integers(1, 3))
            a, _ = compare(ctx, 'SCsetMultipoles', sc, lambda s: m.SCsetMultipoles(s, mags, AB, method='sys', order=order, type=typ),
                           lambda s: (s.set_systematic_multipole_errors(mags, AB[:, ::-1].copy(), order - 1, typ == 1), s)[1], True)
            what = (typ, order)
        ctx.check(np.array_equal(AB, keep), 'the table was changed')
        ctx.raises(ValueError, lambda: m.SCsetMultipoles(a, mags, AB[:, 0]), 'table with one column')
        ctx.raises(ValueError, lambda: m.SCsetMultipoles(a, mags, AB, type=3), 'type 3')
    ctx.note(function=k, what=what)
    ctx.sig(k, what, ctx.idx)


def registration(ctx):
    rng = ctx.rng
    base = gen.make_ring(rng)
    ring2 = at.Lattice([e.deepcopy() for e in base], energy=base.energy, periodicity=1, name=base.name)
    a, b = m.SCinit(base), SimulatedCommissioning(ring2)
    d = snap.diff(snap.machine(a), snap.machine(b))
    ctx.check(not d, f'SCinit: {snap.describe(d)}')
    r = a.RING
    bpm, qf, cav = gen.ords(r, 'BPM'), gen.ords(r, 'QF', 'QD'), gen.ords(r, 'RFCav')
    for regex in ('^QF$', 'Q.', 'Girder', 'nothing', 'Start$'):
        x, y = m.SCgetOrds(r, regex), sc_tools.ords_from_regex(r, regex)
        import re
        ctx.check(np.array_equal(x, y) and list(x) == [i for i, e in enumerate(r) if re.search(regex, e.FamName)], f'ordinates of {regex}')
    kw = maybe(rng, Offset=1e-4 * np.ones(2), Roll=1e-2, CalError=0.01 * np.ones(2), Noise=1e-6 * np.ones(2))
    ctx.check(m.SCregisterBPMs(a, bpm, **kw) is a, 'SCregisterBPMs')
    b.register_bpms(bpm, **kw)
    kw = maybe(rng, CalErrorB=np.array([0, 1e-3, 0]), MagnetOffset=1e-5 * np.ones(3), HCM=1e-3, VCM=2e-3)
    ctx.check(m.SCregisterMagnets(a, qf, **kw) is a, 'SCregisterMagnets')
    b.register_magnets(qf, **kw)
    kw = maybe(rng, FrequencyOffset=10.0, VoltageOffset=1e3)
    ctx.check(m.SCregisterCAVs(a, cav, **kw) is a, 'SCregisterCAVs')
    b.register_cavities(cav, **kw)
    pair = np.vstack((gen.ords(r, 'GirderStart'), gen.ords(r, 'GirderEnd')))
    kw = maybe(rng, Offset=1e-4 * np.ones(3), Roll=1e-3 * np.ones(3))
    ctx.check(m.SCregisterSupport(a, 'Girder', pair, **kw) is a, 'SCregisterSupport')
    b.register_supports(pair, 'Girder', **kw)
    d = snap.diff(snap.machine(a), snap.machine(b))
    ctx.check(not d, f'registration: {snap.describe(d)}')
    ctx.raises(Exception, lambda: m.SCregisterSupport(a, 'Nonsense', pair), 'unknown support')
    compare(ctx, 'SCSanityCheck', a, m.SCSanityCheck, lambda s: s.verify_structure())
    s = np.sort(rng.uniform(0, at.get_s_pos(r)[-1], int(rng.integers(1, 6))))
    sc, o = machine(ctx)
    compare(ctx, 'SCgetSupportOffset', sc, lambda x: m.SCgetSupportOffset(x, s), lambda x: x.support_offset_and_roll(s)[0])
    compare(ctx, 'SCgetSupportRoll', sc, lambda x: m.SCgetSupportRoll(x, s), lambda x: x.support_offset_and_roll(s)[1])
    ctx.sig('registration', ctx.idx)


def readings(ctx):
    rng = ctx.rng
    sc, o = machine(ctx)
    bpms = pick(rng, sc.ORD.BPM, 1, len(sc.ORD.BPM), sort=True)
    k = ctx.idx % 6
    sc.INJ.nParticles = int(rng.choice([1, 4, 9]))
    if k == 0:
        kw = maybe(rng, BPMords=bpms if rng.random() < 0.5 else rng.permutation(bpms))
        compare(ctx, 'SCgetBPMreading', sc, lambda s: m.SCgetBPMreading(s, **kw), lambda s: bpm_reading(s, kw.get('BPMords'))[0])
        compare(ctx, 'SCgenBunches', sc, m.SCgenBunches, generate_bunches)
    elif k == 1:
        kw = maybe(rng, nParticles=int(rng.integers(2, 20)), nTurns=int(rng.integers(1, 6)), plotFlag=bool(rng.random() < 0.3))
        compare(ctx, 'SCgetBeamTransmission', sc, lambda s: m.SCgetBeamTransmission(s, **kw), lambda s: beam_transmission(s, **ren(kw, nParticles='nParticles', nTurns='nTurns', plotFlag='plot')), plots=True)
    elif k == 2:
        cms = [pick(rng, sc.ORD.HCM, 1, 3), pick(rng, sc.ORD.VCM, 1, 3)]
        amp = float(10 ** rng.uniform(-5.5, -4.3))
        mode = str(rng.choice(['fixedKick', 'fixedOffset']))
        if mode == 'fixedOffset':
            amp = 3e-4
        if rng.random() < 0.4:
            amp = [np.full(len(c), amp) for c in cms]
        kw = maybe(rng, mode=mode, nSteps=int(rng.integers(2, 7)), fit=str(rng.choice(['linear', 'quadratic', 'quadratic'])))
        compare(ctx, 'SCgetRespMat', sc, lambda s: m.SCgetRespMat(s, amp, bpms, cms, **kw),
                lambda s: response_matrix(s, amp, bpms, cms, **(ren(kw, mode='mode', nSteps='n_steps') | dict(fit_order=2 if kw.get('fit') == 'quadratic' else 1))))
    elif k == 3:
        kw = maybe(rng, BPMords=bpms, CAVords=o['some_cav'], nSteps=int(rng.integers(2, 5)))
        df = float(rng.uniform(50, 500))
        compare(ctx, 'SCgetDispersion', sc, lambda s: m.SCgetDispersion(s, df, **kw), lambda s: dispersion(s, df, **ren(kw, BPMords='bpm_ords', CAVords='cav_ords', nSteps='n_steps')))
    elif k == 4:
        ords = pick(rng, sc.ORD.Magnet, 1, 5, sort=True)
        kw = maybe(rng, ords=ords, plot=bool(rng.random() < 0.3))
        compare(ctx, 'SCgetCOD', sc, lambda s: m.SCgetCOD(s, **kw), lambda s: SCgetCOD(s, **kw), plots=True)
    else:
        cms = [pick(rng, sc.ORD.HCM, 1, 3), pick(rng, sc.ORD.VCM, 1, 3)]
        kw = maybe(rng, trackMode=str(rng.choice(['TBT', 'ORB'])), Z0=1e-4 * rng.normal(size=6), nTurns=int(rng.integers(1, 3)), dkick=2e-5, useIdealRing=bool(rng.random() < 0.5))
        compare(ctx, 'SCgetModelRM', sc, lambda s: m.SCgetModelRM(s, bpms, cms, **kw), lambda s: SCgetModelRM(s, bpms, cms, **kw))
        kw = maybe(rng, trackMode=str(rng.choice(['TBT', 'ORB'])), Z0=1e-4 * rng.normal(size=6), nTurns=int(rng.integers(1, 3)), rfStep=200.0, useIdealRing=bool(rng.random() < 0.5))
        compare(ctx, 'SCgetModelDispersion', sc, lambda s: m.SCgetModelDispersion(s, bpms, o['some_cav'], **kw), lambda s: SCgetModelDispersion(s, bpms, o['some_cav'], **kw))
        for i in pick(rng, np.arange(len(sc.RING)), 1, 4):
            sc.RING[int(i)].EApertures = np.array([0.01, 0.02])
        kw = maybe(rng, includeAperture=bool(rng.random() < 0.5))
        compare(ctx, 'SCgetModelRING', sc, lambda s: m.SCgetModelRING(s, **kw), lambda s: SCgetModelRING(s, **kw))
    ctx.note(function=k, mode=sc.INJ.trackMode)
    ctx.sig(k, ctx.idx)


def corrections(ctx):
    rng = ctx.rng
    sc, o = machine(ctx)
    k = ctx.idx % 9
    sc.INJ.trackMode = 'TBT'
    # feedback functions get an already inverted matrix
    cms = [sc.ORD.HCM, sc.ORD.VCM]
    if rng.random() < 0.5:
        cms = [pick(rng, c, 4, len(c), sort=True) for c in cms]
    bpms = sc.ORD.BPM if rng.random() < 0.6 else pick(rng, sc.ORD.BPM, 6, len(sc.ORD.BPM), sort=True)
    common = maybe(rng, R0=1e-5 * rng.normal(size=2 * len(bpms) * {0: 1, 1: 2, 2: 1, 3: 2}.get(k, 1)))
    common.update(CMords=cms, BPMords=bpms)
    if k < 4:
        turns = {0: 1, 1: 2, 2: 1, 3: 2}[k]
        orb = k == 2 and rng.random() < 0.5
        sc.INJ.nTurns = turns
        rm = SCgetModelRM(sc, bpms, cms, nTurns=turns, trackMode='ORB' if orb else 'TBT')
        scale_disp = 0
        if k == 2 and rng.random() < 0.4:
            scale_disp = float(rng.choice([1e7, -1e7]))
            rm = np.hstack((rm, scale_disp * SCgetModelDispersion(sc, bpms, o['cav'], trackMode='ORB', nTurns=1)[:, None]))
        mplus = sc_tools.pinv(rm, alpha=float(rng.choice([0, 5, 20])), num_removed=int(rng.integers(0, 3)))
        if orb:
            sc.INJ.trackMode = 'ORB'
        if k in (0, 1) and rng.random() < 0.5:  # a machine in which the beam is lost
            for i in gen.ords(sc.RING, 'D3'):
                sc.RING[i].EApertures = np.array([2.5e-3, 2.5e-3])
            for i in pick(rng, sc.ORD.HCM, 1, 2):
                sc.set_cm_setpoints(i, 3e-4 * rng.normal(), False)
    else:
        common = {}
    names = dict(R0='reference', CMords='cm_ords', BPMords='bpm_ords', maxsteps='maxsteps', eps='eps', target='target', scaleDisp='scaleDisp', nBPMs='n_bpms')
    if k == 0:
        kw = common | maybe(rng, maxsteps=int(rng.integers(1, 30)))
        compare(ctx, 'SCfeedbackFirstTurn', sc, lambda s: m.SCfeedbackFirstTurn(s, mplus, **kw), lambda s: orbit_trajectory.first_turn(s, np.linalg.pinv(mplus), **ren(kw, **names)), True)
    elif k == 1:
        if rng.random() < 0.5:
            kw = common | maybe(rng, maxsteps=int(rng.integers(1, 10)), nBPMs=int(rng.integers(2, 6)))
            compare(ctx, 'SCfeedbackStitch', sc, lambda s: m.SCfeedbackStitch(s, mplus, **kw), lambda s: orbit_trajectory.stitch(s, np.linalg.pinv(mplus), **ren(kw, **names)), True)
        else:
            kw = common | maybe(rng, maxsteps=int(rng.integers(1, 10)), eps=1e-5)
            compare(ctx, 'SCfeedbackBalance', sc, lambda s: m.SCfeedbackBalance(s, mplus, **kw), lambda s: orbit_trajectory.balance(s, np.linalg.pinv(mplus), **ren(kw, **names)), True)
    elif k in (2, 3):
        kw = common | maybe(rng, maxsteps=int(rng.integers(1, 15)), eps=1e-6, target=float(rng.choice([0, 1e-5, 1e-2])))
        if scale_disp:
            kw['scaleDisp'] = scale_disp
        compare(ctx, 'SCfeedbackRun', sc, lambda s: m.SCfeedbackRun(s, mplus, **kw), lambda s: orbit_trajectory.correct(s, np.linalg.pinv(mplus), **ren(kw, **names)), True)
    elif k == 4:
        sc.INJ.nTurns = 2
        n_b = np.sort(rng.choice(8, int(rng.integers(2, 5)), replace=False))
        kw = maybe(rng, nBPMs=n_b, plotFlag=bool(rng.random() < 0.2), nShots=3)
        compare(ctx, 'SCfitInjectionZ', sc, lambda s: m.SCfitInjectionZ(s, 'fitTrajectory', **kw), lambda s: fit_injection_trajectory(s, **ren(kw, nBPMs='bpm_inds', plotFlag='plot')), plots=True)
        kw = maybe(rng, nDims=np.array([0]), plotFlag=bool(rng.random() < 0.2))
        compare(ctx, 'SCfitInjectionZ', sc, lambda s: m.SCfitInjectionZ(s, 'injectionDrift', **kw), lambda s: fit_injection_drift(s, **ren(kw, nDims='n_dims', plotFlag='plot')), plots=True)
        ctx.raises(ValueError, lambda: m.SCfitInjectionZ(sc, 'other'), 'unknown mode')
    elif k == 5:
        sc.INJ.nTurns = n0 = int(rng.choice([1, 7]))
        kw = maybe(rng, cavOrd=o['some_cav'], f_range=(-500.0, 700.0), nSteps=int(rng.integers(5, 9)))
        kw['nTurns'] = int(rng.integers(8, 20))

        def py(s):
            s.INJ.nTurns = kw['nTurns']
            try:
                s2 = correct_rf_frequency(s, **ren(kw, cavOrd='cav_ords', f_range='f_range', nSteps='n_steps'))
            finally:
                s.INJ.nTurns = n0
            return s2
        compare(ctx, 'SCsynchEnergyCorrection', sc, lambda s: m.SCsynchEnergyCorrection(s, **kw), py, True)
    elif k == 6:
        sc.INJ.nTurns = n0 = int(rng.choice([1, 7]))
        kw = maybe(rng, cavOrd=o['some_cav'], nSteps=int(rng.integers(5, 12)), nTurns=int(rng.integers(3, 12)))
        if rng.random() < 0.5:
            for i in pick(rng, gen.ords(sc.RING, 'D3'), 1, 3):
                sc.RING[i].EApertures = np.array([3e-3, 3e-3])

        def py(s):
            s.INJ.nTurns = kw.get('nTurns', 20)
            try:
                s2 = correct_rf_phase(s, **ren(kw, cavOrd='cav_ords', nSteps='n_steps'))
            finally:
                s.INJ.nTurns = n0
            return s2
        compare(ctx, 'SCsynchPhaseCorrection', sc, lambda s: m.SCsynchPhaseCorrection(s, **kw), py, True)
    elif k == 7:
        fam = [o['qf'], o['qd']]
        sc.INJ.nTurns = 5
        vec = [np.linspace(-0.02, 0.02, int(rng.integers(2, 4))), np.linspace(-0.01, 0.03, int(rng.integers(2, 4)))]
        kw = maybe(rng, nParticles=int(rng.integers(2, 6)), nTurns=int(rng.integers(1, 6)), target=float(rng.choice([0.5, 1])), fullScan=int(rng.integers(2)))
        compare(ctx, 'SCtuneScan', sc, lambda s: m.SCtuneScan(s, fam, vec, **kw), lambda s: tune_scan(s, fam, vec, **ren(kw, nParticles='nParticles', nTurns='nTurns', target='target', fullScan='full_scan')))
    else:
        n = int(rng.integers(1, 5))
        bp = np.array([rng.choice(sc.ORD.BPM, n, replace=False) for _ in range(2)])
        mg = np.array([rng.choice(np.concatenate((o['qf'], o['qd'])), n, replace=False) for _ in range(2)])
        off = rng.normal(size=2) * 1e-5
        compare(ctx, 'SCpseudoBBA', sc, lambda s: m.SCpseudoBBA(s, bp, mg, off), lambda s: fake_bba(s, bp, mg, fake_offset=off), True)
        sc.INJ.nTurns, sc.INJ.nParticles, sc.INJ.nShots = 2, 1, 1
        kw = maybe(rng, n_steps=3, num_downstream_bpms=5, max_injection_pos_angle=np.array([5e-4, 5e-4]))
        if rng.random() < 0.5:
            compare(ctx, 'SCBBA', sc, lambda s: m.SCBBA(s, bp[:, :1], mg[:, :1], mode='TBT', **kw), lambda s: trajectory_bba(s, bp[:, :1], mg[:, :1], **kw), True)
    ctx.note(function=k, common=list(common))
    ctx.sig(k, ctx.idx)


def lattice(ctx):
    """Apertures, error ramping and closed-orbit alignment."""
    rng = ctx.rng
    sc, o = machine(ctx)
    k = ctx.idx % 4
    for i in pick(rng, np.arange(len(sc.RING)), 3, 30):
        if type(sc.RING[int(i)]).__name__ != 'RFCavity':
            sc.RING[int(i)].EApertures = np.array([0.006, 0.003])
    if k == 0:
        kw = maybe(rng, bounds=np.array([1e-4, 3e-3]), thetas=np.linspace(0, 2, int(rng.integers(2, 5))), accuracy=2e-5, launchOnOrbit=bool(rng.random() < 0.7), centerOnOrbit=bool(rng.random() < 0.3),
                   auto=int(rng.choice([0, 5])), plot=bool(rng.random() < 0.5))
        kw.update(nturns=int(rng.integers(1, 6)), useOrbit6=True)
        if 'accuracy' not in kw:
            kw['accuracy'] = 1e-5
        de = float(rng.normal(0, 2e-3))
        compare(ctx, 'SCdynamicAperture', sc, lambda s: m.SCdynamicAperture(s.RING, de, **kw), lambda s: SCdynamicAperture(s.RING, de, **kw), plots=True)
    elif k == 1:
        kw = maybe(rng, accuracy=float(rng.choice([1e-2, 3e-3])), stepsize=float(rng.choice([2e-3, 4.3e-3])), plot=int(rng.random() < 0.5)) | dict(nturns=int(rng.integers(1, 10)))
        ref = pick(rng, np.arange(len(sc.RING)), 1, 2, sort=True)
        bounds = [[1e-3, 2e-2], [-1e-3, -2e-2], [2e-3, 2.5e-3], [0.15, 0.16]][int(rng.integers(4))]
        compare(ctx, 'SCmomentumAperture', sc, lambda s: m.SCmomentumAperture(s.RING, ref, list(bounds), **kw), lambda s: SCmomentumAperture(s.RING, ref, list(bounds), **kw), plots=True)
    elif k == 2:
        sc.INJ.trackMode, sc.INJ.nTurns, sc.INJ.nShots, sc.INJ.nParticles = 'TBT', 1, 1, 1
        kw = maybe(rng, eps=3e-2, target=float(rng.choice([0, 1e-4])), alpha=float(rng.choice([2, 10])), maxsteps=int(rng.choice([2, 5, 40])), nStepsRamp=int(rng.integers(1, 6)))
        compare(ctx, 'SCrampUpErrors', sc, lambda s: m.SCrampUpErrors(s, **kw), lambda s: SCrampUpErrors(s, **kw), True)
    else:
        sc.INJ.trackMode, sc.INJ.nTurns, sc.INJ.nShots, sc.INJ.nParticles = 'ORB', 1, 1, 1
        rm = SCgetModelRM(sc, sc.ORD.BPM, sc.ORD.CM, trackMode='ORB')
        rs = lambda: DotDict(RM=rm.copy(), CMords=[c.copy() for c in sc.ORD.CM], BPMords=sc.ORD.BPM.copy(), scaleDisp=0)
        b = rng.choice(sc.ORD.BPM, (2, 1))
        q = rng.choice(np.concatenate((o['qf'], o['qd'])), (2, 1))
        kw = maybe(rng, n_steps=int(rng.integers(3, 6)), BBABPMtarget=4e-4, magnet_strengths=np.array([0.98, 1.03]), use_bpm_reading_for_orbit_bump_ref=True, num_downstream_bpms=7)
        compare(ctx, 'SCBBA', sc, lambda s: m.SCBBA(s, b, q, mode='ORB', RMstruct=rs(), **kw), lambda s: orbit_bba(s, b, q, RMstruct=rs(), **kw), True)
    ctx.note(function=k)
    ctx.sig(k, ctx.idx)


def plotting(ctx):
    rng = ctx.rng
    sc, o = machine(ctx)
    sc.INJ.trackMode = str(rng.choice(['TBT', 'PORB']))
    k = ctx.idx % 5
    if k == 0:
        def py(s):
            s.plot = True
            bpm_reading(s)
            s.plot = first
            return s
        first = sc.plot = bool(rng.random() < 0.5)
        compare(ctx, 'SCplotBPMreading', sc, lambda s: m.SCplotBPMreading(s), py, True, plots=True)
    elif k == 1:
        compare(ctx, 'SCplotCMstrengths', sc, m.SCplotCMstrengths, plot_cm_strengths, plots=True)
    elif k == 2:
        kw = maybe(rng, transferLine=int(rng.integers(2)), nSectors=int(rng.integers(1, 4)), plotIdealRing=int(rng.integers(2)), plotMagNames=int(rng.integers(2)), fontSize=12)
        if rng.random() < 0.4:
            kw.update(dict(sRange=[1.0, 20.0]) if rng.random() < 0.5 else dict(oList=np.sort(rng.choice(len(sc.RING), 4, replace=False))))
        compare(ctx, 'SCplotLattice', sc, lambda s: m.SCplotLattice(s, **kw), lambda s: plot_lattice(s, **(dict(n_sectors=1, ideal_ring=True, font_size=16) | ren(kw, transferLine='transfer_line', nSectors='n_sectors', plotIdealRing='ideal_ring', plotMagNames='plot_magnet_names', fontSize='font_size', sRange='s_range', oList='indices'))), plots=True)
    elif k == 3:
        kw = maybe(rng, ord=pick(rng, np.arange(len(sc.RING)), 1, 1), nParticles=int(rng.integers(1, 5)), nTurns=int(rng.integers(2, 6)))
        if rng.random() < 0.4:
            kw['customBunch'] = 1e-5 * rng.normal(size=(6, 4))
        compare(ctx, 'SCplotPhaseSpace', sc, lambda s: m.SCplotPhaseSpace(s, **kw), lambda s: plot_phase_space(s, **ren(kw, ord='ords', customBunch='custom_bunch', nParticles='nParticles', nTurns='nTurns')), plots=True)
    else:
        kw = maybe(rng, fontSize=10, xLim=(2.0, 30.0))
        compare(ctx, 'SCplotSupport', sc, lambda s: m.SCplotSupport(s, **kw), lambda s: plot_support(s, **ren(kw, fontSize='font_size', xLim='x_lim')), plots=True)
    ctx.note(function=k)
    ctx.sig(k, ctx.idx)


def tools(ctx):
    rng = ctx.rng
    ring = gen.make_ring(rng)
    # pseudo inverse
    A = rng.normal(size=(int(rng.integers(2, 12)), int(rng.integers(2, 12))))
    kw = maybe(rng, N=int(rng.integers(0, 3)), alpha=float(rng.choice([0, 0.5])), damping=float(rng.uniform(0.2, 1)))
    ctx.close(m.SCgetPinv(A, **kw), sc_tools.pinv(A, **ren(kw, N='num_removed', alpha='alpha', damping='damping')), 'SCgetPinv', rtol=1e-13)
    # random numbers
    seed = int(rng.integers(2 ** 31))
    args = [(), (3,), (2, (3, 2)), (1.5, (4,))][int(rng.integers(4))]
    np.random.seed(seed)
    x = m.SCrandnc(*args)
    np.random.seed(seed)
    full = args + ((2, (1,))[len(args):] if len(args) < 2 else ())
    y = sc_tools.randnc(*full)
    ctx.check(np.array_equal(x, y) and np.shape(x) == full[1], f'SCrandnc{args}')
    # circumference
    C = at.get_s_pos(ring)[-1]
    mode = str(rng.choice(['abs', 'rel']))
    val = C * (1 + 1e-4 * rng.normal()) if mode == 'abs' else 1 + 1e-4 * rng.normal()
    kw = {} if mode == 'abs' and rng.random() < 0.5 else dict(mode=mode)
    r1, r2 = (at.Lattice([e.deepcopy() for e in ring], energy=ring.energy, periodicity=1) for _ in range(2))
    x, y = m.SCscaleCircumference(r1, val, **kw), sc_tools.scale_circumference(r2, val, mode)
    ctx.check(not snap.diff(snap.ring(x), snap.ring(y)), 'SCscaleCircumference')
    # switches
    r1, r2 = (at.Lattice([e.deepcopy() for e in ring], energy=ring.energy, periodicity=1) for _ in range(2))
    opts = [str(s) for s in rng.choice(['cavityon', 'cavityoff', 'radiationon', 'radiationoff'], int(rng.integers(1, 4)))]
    x, y = m.SCcronoff(r1, *opts), switch_cavity_and_radiation(r2, *opts)
    d = snap.diff(snap.ring(x), snap.ring(y))
    ctx.check(not d, f'SCcronoff {opts}: {snap.describe(d)}')
    # transformations
    shift, rot = 1e-3 * rng.normal(size=3), 1e-3 * rng.normal(size=3)
    theta = float(rng.choice([0.0, 0.1]))
    got = m.SCgetTransformation(*shift, *rot, theta, 0.7, refPoint='entrance')
    e = at.Dipole('B', 0.7, theta) if theta else at.Quadrupole('Q', 0.7, 1.0)
    e.SupportOffset, e.SupportRoll = np.zeros(3), np.zeros(3)
    e.MagnetOffset, e.MagnetRoll = shift, np.array([rot[2], rot[0], rot[1]])
    sc_tools.update_transformation(e)
    for g, f in zip(got, ('T1', 'T2', 'R1', 'R2')):
        ctx.close(g, getattr(e, f), f'SCgetTransformation {f}', rtol=1e-12, atol=1e-15)
    ctx.raises(NotImplementedError, lambda: m.SCgetTransformation(*shift, *rot, theta, 0.7), 'reference point in the centre')
    # files
    with tempfile.TemporaryDirectory() as d:
        fname = os.path.join(d, 'mp.txt')
        n = int(rng.integers(2, 8))
        t = np.column_stack((np.arange(1, n + 1), 1e-3 * rng.normal(size=(n, 2))))
        t[int(rng.integers(n)), 1 + int(rng.integers(2))] = 1.0
        np.savetxt(fname, t, fmt='%.10e', delimiter='\t')
        x, y = m.SCmultipolesRead(fname), sc_tools.read_multipoles(fname)
        ctx.check(not snap.diff(snap.freeze(x), snap.freeze(y)), 'SCmultipolesRead')
    for f in (lambda: m.SClocoLib('x'), lambda: m.SCparticlesIn3D()):
        ctx.raises(NotImplementedError, f, 'function without counterpart')
    ctx.note(matrix=A.shape, options=opts)
    ctx.sig(ctx.idx)


def complete(ctx):
    """Each public name of the interface is callable and none has disappeared."""
    names = ['SCapplyErrors', 'SCBBA', 'SCcronoff', 'SCdynamicAperture', 'SCfeedbackBalance', 'SCfeedbackFirstTurn', 'SCfeedbackRun', 'SCfeedbackStitch', 'SCfitInjectionZ',
             'SCgenBunches', 'SCgetBeamTransmission', 'SCgetBPMreading', 'SCgetCMSetPoints', 'SCgetCOD', 'SCgetDispersion', 'SCgetModelDispersion', 'SCgetModelRING',
             'SCgetModelRM', 'SCgetOrds', 'SCgetPinv', 'SCgetRespMat', 'SCgetSupportOffset', 'SCgetSupportRoll', 'SCgetTransformation', 'SCinit', 'SClocoLib',
             'SCmomentumAperture', 'SCmultipolesRead', 'SCparticlesIn3D', 'SCplotBPMreading', 'SCplotCMstrengths', 'SCplotLattice', 'SCplotPhaseSpace', 'SCplotSupport',
             'SCpseudoBBA', 'SCrampUpErrors', 'SCrandnc', 'SCregisterBPMs', 'SCregisterCAVs', 'SCregisterMagnets', 'SCregisterSupport', 'SCSanityCheck',
             'SCscaleCircumference', 'SCsetCavs2SetPoints', 'SCsetCMs2SetPoints', 'SCsetMags2SetPoints', 'SCsetMultipoles', 'SCsynchEnergyCorrection',
             'SCsynchPhaseCorrection', 'SCtuneScan', 'SCupdateCAVs', 'SCupdateMagnets', 'SCupdateSupport']
    for n in names:
        ctx.check(callable(getattr(m, n, None)), f'{n} is missing')
    ctx.sig(ctx.idx)


SCENARIOS = dict(setters=Scenario(setters, 160, 4000), registration=Scenario(registration, 20, 300), readings=Scenario(readings, 120, 1800), corrections=Scenario(corrections, 108, 1350),
                 lattice=Scenario(lattice, 32, 400), plotting=Scenario(plotting, 20, 200), tools=Scenario(tools, 60, 1200), complete=Scenario(complete, 1, 1))
