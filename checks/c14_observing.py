"""C14: full-state comparison of the machine before and after every observing call, including calls without beam and failing calls."""
import numpy as np
import at
from matplotlib import pyplot as plt
from vlib import gen, snap
from vlib.common import Scenario, Inconclusive
from pySC.core.beam import bpm_reading, all_elements_reading, beam_transmission, generate_bunches
from pySC.core.constants import TRACKING_MODES
from pySC.correction import bba, loco
from pySC.correction.rf import phase_and_energy_error
from pySC.correction.tune import tune
from pySC.correction.injection_fit import fit_injection_drift
from pySC.lattice_properties.magnet_orbit import SCgetCOD
from pySC.lattice_properties.response_model import SCgetModelRM, SCgetModelDispersion, SCgetModelRING
from pySC.plotting.plot_lattice import plot_lattice, plot_cm_strengths
from pySC.plotting.plot_phase_space import plot_phase_space
from pySC.plotting.plot_support import plot_support
from pySC.plotting.plot_synoptic import plot_synoptic

PID = 'C14'
RULE = ('random machines (good beam, no beam, unstable optics, cavities missing) with random injection settings; random sequences of observing calls '
        'with random valid and invalid arguments; element attributes of both lattices, plot range, injection settings, '
        'registrations, uncertainties and mutable arguments are compared exactly before and after every single call. '
        'Distinct by machine kind and call sequence; non-trivial when a call completed or failed with the state compared.')
ASSUMPTIONS = ['plt.pause is replaced by a stand-in that returns at once', 'the position in the global random stream is not part of the machine']

plt.pause = lambda *_: None


def plot_range(r):
    v = vars(r).get('_s_range')
    full = (0.0, float(at.get_s_pos(r)[-1]))
    return [float(x) for x in (full if v is None else v)]


def state(sc):
    d = snap.machine(sc)
    d['ranges'] = [plot_range(sc.RING), plot_range(sc.IDEALRING)]
    d['types'] = [type(sc.ORD).__name__, type(sc.SIG).__name__, type(sc.INJ).__name__]
    d['identity'] = [id(sc.RING), id(sc.IDEALRING), id(sc.INJ), id(sc.ORD), id(sc.SIG)] + [id(e) for e in sc.RING] + [id(e) for e in sc.IDEALRING]
    return d


def some(rng, a, allow_bad=True):
    a = np.asarray(a)
    n = int(rng.integers(1, len(a) + 1))
    return np.sort(rng.choice(a, n, replace=False))


def observers(sc, o, rng):
    """name -> (thunk, arguments to watch)."""
    o_ords = np.asarray(sc.ORD.BPM)
    sub = some(rng, o_ords)
    kind = rng.integers(4)
    req = None if kind == 0 else sub if kind == 1 else np.append(sub, o['qf'][0]) if kind == 2 else np.array(o['qd'][:2])
    cms = [some(rng, sc.ORD.HCM)[:2], some(rng, sc.ORD.VCM)[:2]]
    mode = str(rng.choice(['TBT', 'TBT', 'ORB', 'nonsense']))
    z = 1e-4 * rng.normal(size=6) * (1 if rng.random() < 0.8 else 1e3)
    ideal = bool(rng.random() < 0.5)
    mags = some(rng, sc.ORD.Magnet)
    locs = rng.uniform(0, float(at.get_s_pos(sc.RING)[-1]), 5)
    npart = int(rng.choice([1, 2, 3]))
    nturn = int(rng.integers(1, 4))
    plot = bool(rng.random() < 0.3)
    pair = np.vstack([o_ords[:4]] * 2)
    mpair = np.vstack([o['qf'][:4]] * 2)
    off = 1e-4 * rng.normal(size=(2, 4))
    err = np.abs(1e-5 * rng.normal(size=(2, 4)))
    off[0, 0] = np.nan
    flags = rng.random((2, 4)) < 0.3
    bunch = 1e-4 * rng.normal(size=(6 if rng.random() < 0.8 else 5, 2))
    inds = np.arange(2) + len(o_ords) - 1 if rng.random() < 0.5 else np.arange(2)
    smax = float(at.get_s_pos(sc.RING)[-1])
    lim = (0.1 * smax, 0.6 * smax)
    calls = dict(
        bpm_reading=(lambda: bpm_reading(sc, bpm_ords=req, calculate_errors=bool(rng.random() < 0.5)), [req]),
        bpm_reading_plain=(lambda: bpm_reading(sc), []),
        all_elements_reading=(lambda: all_elements_reading(sc), []),
        generate_bunches=(lambda: generate_bunches(sc, nParticles=None if plot else npart), []),
        beam_transmission=(lambda: beam_transmission(sc, nParticles=npart if rng.random() < 0.5 else None, nTurns=nturn if rng.random() < 0.5 else None, plot=plot), []),
        verify_structure=(lambda: sc.verify_structure(), []),
        support_offset_and_roll=(lambda: sc.support_offset_and_roll(locs), [locs]),
        get_cm_setpoints=(lambda: sc.get_cm_setpoints(cms[0], False), cms),
        get_vcm_setpoints=(lambda: sc.get_cm_setpoints(cms[1], True), cms),
        model_rm=(lambda: SCgetModelRM(sc, sub, cms, trackMode=mode, Z0=z, nTurns=nturn, useIdealRing=ideal), [sub, cms, z]),
        model_dispersion=(lambda: SCgetModelDispersion(sc, sub, sc.ORD.RF, trackMode=mode, Z0=z, nTurns=nturn, useIdealRing=ideal, rfStep=float(rng.choice([5.0, 50.0]))), [sub, z]),
        model_ring=(lambda: SCgetModelRING(sc, includeAperture=plot), []),
        cod=(lambda: SCgetCOD(sc, ords=None if ideal else mags, plot=plot), [mags]),
        phase_energy=(lambda: phase_and_energy_error(sc, sc.ORD.RF), []),
        tune=(lambda: tune(sc, fit_integer=plot, ideal=ideal), []),
        beta_beat=(lambda: loco.model_beta_beat(sc.RING, np.array([0.3, 0.2]) * np.ones((len(o_ords), 2)), o_ords, plot=plot) if False else None, []),
        drift_fit=(lambda: fit_injection_drift(sc, plot=plot), []),
        plot_lattice=(lambda: plot_lattice(sc, ideal_ring=ideal, s_range=np.array(lim) if rng.random() < 0.3 else None, indices=mags if rng.random() < 0.3 else None,
                                           n_sectors=2 if rng.random() < 0.3 else None, plot_magnet_names=plot), [mags]),
        plot_cm=(lambda: plot_cm_strengths(sc), []),
        plot_phase_space=(lambda: plot_phase_space(sc, ords=np.array([int(rng.integers(len(sc.RING)))]), custom_bunch=bunch if plot else None, nParticles=None if plot else 2, nTurns=nturn, plotCO=ideal), [bunch]),
        plot_support=(lambda: plot_support(sc, x_lim=lim if plot else None), []),
        plot_synoptic=(lambda: plot_synoptic(sc, correctors=plot, famnames=ideal), []),
        plot_bba=(lambda: bba.plot_bba_results(sc, pair, off, err), [pair, off, err]),
        plot_offsets=(lambda: bba.plot_bpm_offsets_from_magnets(sc, pair, mpair, flags), [pair, mpair, flags]),
        copy=(lambda: sc.very_deep_copy(), []),
    )
    del calls['beta_beat']
    return calls


MUST = ('plot_cm', 'plot_support', 'plot_synoptic', 'plot_bba', 'support_offset_and_roll', 'get_cm_setpoints', 'get_vcm_setpoints', 'model_ring', 'copy',
        'verify_structure', 'beam_transmission', 'generate_bunches', 'bpm_reading_plain', 'all_elements_reading')  # valid requests, beam or not
SLOW = ('plot_lattice', 'plot_support', 'plot_phase_space', 'all_elements_reading', 'plot_synoptic')


def machine(ctx):
    rng = ctx.rng
    kind = str(rng.choice(['good', 'good', 'lost', 'partial', 'unstable', 'bare']))
    ap = [4e-3, 3e-3] if kind in ('lost', 'partial') or rng.random() < 0.3 else None
    sc, o = gen.make_sc(rng, dict(apertures=ap, corr_elements=bool(rng.random() < 0.3), split_bends=bool(rng.random() < 0.3)),
                        scale=float(rng.choice([0.3, 1.0])), supports=kind != 'bare', rf=kind != 'bare', noise=bool(rng.random() < 0.7))
    for _ in range(int(rng.integers(0, 4))):
        gen.random_op(sc, o, rng)[1]()
    sc.INJ.trackMode = str(rng.choice(TRACKING_MODES))
    sc.INJ.nParticles = int(rng.choice([1, 1, 2, 4])) if sc.INJ.trackMode != 'ORB' else 1
    sc.INJ.nTurns = int(rng.integers(1, 4)) if sc.INJ.trackMode != 'ORB' else 1
    sc.INJ.nShots = int(rng.choice([1, 1, 2]))
    sc.INJ.beamLostAt = float(rng.choice([1.0, 0.5]))
    if kind == 'lost':
        sc.INJ.Z0 = sc.INJ.Z0 + np.array([0.02, 0, 0, 0, 0, 0])
    elif kind == 'partial':
        sc.INJ.Z0 = sc.INJ.Z0 + np.array([2e-3, 5e-4, 1e-3, 4e-4, 0, 0])
        sc.INJ.beamSize = np.diag([1e-3, 1e-4, 1e-3, 1e-4, 1e-3, 1e-3]) ** 2
    elif kind == 'unstable':
        sc.set_magnet_setpoints(o['qf'], 2.5, False, 1, 'rel')
    if rng.random() < 0.4:
        sc.RING.s_range = (1.0, 0.5 * float(at.get_s_pos(sc.RING)[-1]))
    if rng.random() < 0.3:
        sc.IDEALRING.s_range = (2.0, 0.7 * float(at.get_s_pos(sc.IDEALRING)[-1]))
    return kind, sc, o


def sequence(ctx, plots):
    rng = ctx.rng
    kind, sc, o = machine(ctx)
    if plots and rng.random() < 0.4:
        sc.plot = True
    names, failed = [], []
    calls = observers(sc, o, rng)
    pool = [n for n in calls if (n.startswith('plot') or n in SLOW) == plots]
    if sc.plot:
        pool += ['bpm_reading', 'bpm_reading_plain']
    n = int(rng.integers(2, 5)) if plots else int(rng.integers(4, 12))
    for _ in range(n):
        name = str(rng.choice(pool))
        thunk, args = observers(sc, o, rng)[name]
        before = state(sc)
        held = snap.freeze(dict(a=args))
        try:
            thunk()
        except Exception as e:
            if kind in ('good', 'lost', 'partial') and name in MUST:
                raise
            failed.append(f'{name}:{type(e).__name__}')
            ctx.event(f'{name} raised {type(e).__name__}')
        else:
            ctx.event(f'{name} completed')
        plt.close('all')
        names.append(name)
        d = snap.diff(before, state(sc))
        ctx.check(not d, f'{name} changed the machine ({kind}, {"raised " + failed[-1] if failed and failed[-1].startswith(name + ":") else "completed"}): {snap.describe(d)}')
        d = snap.diff(held, snap.freeze(dict(a=args)))
        ctx.check(not d, f'{name} changed its arguments: {snap.describe(d)}')
    ctx.note(kind=kind, mode=sc.INJ.trackMode, calls=names, failed=failed)
    ctx.sig(kind, sc.INJ.trackMode, sc.INJ.nTurns, names)


def data(ctx):
    sequence(ctx, False)


def plotting(ctx):
    sequence(ctx, True)


SCENARIOS = dict(data=Scenario(data, 120, 2500), plotting=Scenario(plotting, 48, 800))
