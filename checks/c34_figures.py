"""C34: the figures are read back (curves, bars, images, markers, labels) and compared with separately obtained data of the same machine."""
import warnings
import numpy as np
import at
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from vlib import gen, snap
from vlib.common import Scenario, Skip, LogCapture
from pySC.core.beam import bpm_reading, all_elements_reading, beam_transmission
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.correction import bba, loco
from pySC.correction.injection_fit import fit_injection_drift, fit_injection_trajectory
from pySC.correction.rf import correct_rf_phase, correct_rf_frequency
from pySC.correction.tune import tune_scan
from pySC.lattice_properties.apertures import SCdynamicAperture, SCmomentumAperture
from pySC.lattice_properties.magnet_orbit import SCgetCOD
from pySC.plotting.plot_lattice import plot_lattice, plot_cm_strengths
from pySC.plotting.plot_phase_space import plot_phase_space
from pySC.plotting.plot_support import plot_support
from pySC.plotting.plot_synoptic import plot_synoptic
from pySC.utils.sc_tools import pinv

PID = 'C34'
RULE = ('random machines with errors, supports across the ring end, lost beams, apertures of both kinds, monitor and magnet subsets in any order, tracking modes, turns, shots, '
        'ranges and unequal scan sizes; all data are read back from the figures. Distinct by figure, arguments and data.')
ASSUMPTIONS = ['plt.pause is replaced by a stand-in that returns at once', 'figures are drawn with the Agg backend and identified by their order, axes by their order in the figure',
               'styles, colours and legends are not judged']
C = 299792458.0
plt.pause = lambda *_: None
warnings.filterwarnings('ignore', message='.*non-interactive.*')
warnings.filterwarnings('ignore', message='.*FigureCanvasAgg.*')


def figures(func):
    """Result of func and the figures it has drawn."""
    plt.close('all')
    fonts = dict(plt.rcParams)['font.size']
    try:
        out = func()
        return out, [plt.figure(n) for n in plt.get_fignums()]
    finally:
        plt.rcParams['font.size'] = fonts


def quiet(ctx, sc, func):
    """Figures of func, which leaves the machine as it is."""
    before = snap.machine(sc)
    out = figures(func)
    d = snap.diff(before, snap.machine(sc), rtol=0, atol=0)
    ctx.check(not d, f'drawing changed the machine: {snap.describe(d)}')
    return out


def points(x, y):
    x, y = np.ma.filled(np.ma.asarray(x, dtype=float), np.nan).ravel(), np.ma.filled(np.ma.asarray(y, dtype=float), np.nan).ravel()
    ok = np.isfinite(x) & np.isfinite(y)
    return np.column_stack((x[ok], y[ok]))


def curves(ax):
    return [points(li.get_xdata(), li.get_ydata()) for li in ax.lines]


def same(a, b, scale, order=False):
    """The same points, by default in any order."""
    if a.shape != b.shape:
        return False
    if not len(a):
        return True
    if not order:
        tol = np.maximum(scale, 1e-300) * 1e-6
        a, b = [q[np.lexsort((np.round(q[:, 1] / tol[1]), np.round(q[:, 0] / tol[0])))] for q in (a, b)]
        if np.all(np.abs(a - b) <= 1e-6 * scale + 1e-12):
            return True
        # rounding may have changed the order of nearly equal points
        return bool(np.all(np.min(np.max(np.abs(a[:, None] - b[None]) / (2e-6 * scale + 1e-12), axis=2), axis=1) <= 1) and
                    np.all(np.min(np.max(np.abs(a[:, None] - b[None]) / (2e-6 * scale + 1e-12), axis=2), axis=0) <= 1)) if len(a) < 2000 else False
    return bool(np.all(np.abs(a - b) <= 1e-6 * scale + 1e-12))


def drawn(ctx, ax, x, y, what, lines=None):
    """Some curve of the axes consists of exactly these points."""
    want = points(*np.broadcast_arrays(np.asarray(x, dtype=float), np.asarray(y, dtype=float)))
    have = curves(ax) if lines is None else lines
    scale = np.max(np.abs(want), axis=0) if len(want) else np.ones(2)
    near = min((h for h in have if len(h) == len(want)), key=lambda h: np.sum(np.abs(h - want)), default=None)
    ctx.check(any(same(h, want, scale) for h in have), f'{what}: none of the {len(have)} curves shows the {len(want)} expected points '
              f'({want[:4].tolist()}...), nearest {None if near is None else near[:4].tolist()}')
    ctx.event('curves compared')


def machine(ctx, **kw):
    rng = ctx.rng
    kw.setdefault('scale', float(rng.choice([0.1, 1.0])))
    kw.setdefault('bend_hcm', bool(rng.random() < 0.4))
    ring_kw = kw.pop('ring_kw', {})
    sc = gen.make_ideal_sc(rng, **ring_kw)
    o = gen.register_all(sc, rng, **kw)
    if rng.random() < 0.5:  # vertical correctors which are not horizontal ones
        sc.register_magnets(subset(rng, o['sd']), VCM=1e-3)
    sc.apply_errors()
    return sc, o


def subset(rng, a, least=2):
    return np.sort(rng.choice(a, int(rng.integers(least, len(a) + 1)), replace=False))


# ---------------------------------------------------------------- monitor readings
class Same:
    """postFun hook which makes shot k of every reading repeatable."""

    def __init__(self, base):
        self.base, self.k, self.log = base, 0, []

    def __deepcopy__(self, memo):
        return self

    def restart(self):
        self.k, self.log = 0, []
        np.random.seed(self.base)

    def __call__(self, Z):
        self.k += 1
        self.log.append(Z.copy())
        np.random.seed((self.base + self.k) % 2 ** 32)
        return Z


def readings(ctx):
    rng = ctx.rng
    kind = int(rng.integers(3))
    sc, o = machine(ctx)
    aps = {}
    if kind and rng.random() < 0.9:
        for i in range(1, len(sc.RING)):
            if rng.random() < 0.3:
                if kind == 1:
                    aps[i] = np.outer(rng.uniform(2e-3, 2e-2, 2), [-1, 1])
                    sc.RING[i].EApertures = aps[i][:, 1].copy()
                else:
                    aps[i] = np.array([[-1, 1], [-1, 1]]) * rng.uniform(2e-3, 2e-2, (2, 2))
                    sc.RING[i].RApertures = aps[i].ravel().copy()
    if rng.random() < 0.3:  # a beam that is lost somewhere
        sc.INJ.Z0 = sc.INJ.Z0 + np.array([3e-3, 1e-3, 0, 0, 0, 0])
    mode = str(rng.choice(['TBT', 'TBT', 'PORB', 'ORB']))
    sc.INJ.nTurns, sc.INJ.nShots, sc.INJ.nParticles = int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.choice([1, 1, 3]))
    sc.INJ.trackMode = mode
    everything = rng.random() < 0.4 and mode != 'ORB'
    hook = Same(int(rng.integers(2 ** 31)))
    sc.INJ.postFun = hook
    bpms = None if everything or rng.random() < 0.5 else subset(rng, sc.ORD.BPM)
    ctx.note(mode=mode, turns=sc.INJ.nTurns, shots=sc.INJ.nShots, everything=everything, apertures=len(aps), subset=bpms is not None)
    # the data without plot
    own = sc.very_deep_copy()
    if mode == 'PORB':
        own.INJ.trackMode = 'TBT'
    hook.restart()
    try:
        ref = all_elements_reading(own) if everything else bpm_reading(own, bpm_ords=bpms)
    except at.AtError:
        raise Skip('no closed orbit')
    sc.plot = True
    hook.restart()
    out, figs = figures(lambda: all_elements_reading(sc) if everything else bpm_reading(sc, bpm_ords=bpms))
    if mode != 'PORB':
        for a, b in zip(out, ref):
            ctx.close(a, b, 'readings with and without figure', rtol=1e-12)
    ctx.check(len(figs) == 1, f'{len(figs)} figures for one reading')
    s = at.get_s_pos(sc.RING)
    n, length = sc.INJ.nTurns, s[-1]
    ords = sc.ORD.BPM if bpms is None else bpms
    for d in range(2):
        ax = figs[0].axes[d]
        x = (np.arange(n)[:, None] * length + s[ords]).ravel()
        drawn(ctx, ax, x, 1e3 * ref[0][d], f'monitor readings of plane {d}')
        if aps:
            i = np.array(sorted(aps))
            x = (np.arange(n)[:, None] * length + s[i]).ravel()
            for side in range(2):
                drawn(ctx, ax, x, 1e3 * np.tile([aps[k][d, side] for k in i], n), f'aperture {side} of plane {d}')
        if everything:
            x = (np.arange(n)[:, None] * length + s).ravel()
            for shot in range(sc.INJ.nShots):
                for p in range(sc.INJ.nParticles):
                    drawn(ctx, ax, x, 1e3 * ref[1][d, p, :, :, shot].T.ravel(), f'trajectory of particle {p} in plane {d}')
        lo, hi = ax.get_xlim()
        ctx.check(lo <= 0 and hi >= n * length * (1 - 1e-9), f'range of the axis {lo, hi} for {n} turns of {length} m')
        ctx.check('x' in ax.get_ylabel() if d == 0 else 'y' in ax.get_ylabel(), f'label {ax.get_ylabel()} of plane {d}')
    ctx.sig(mode, n, sc.INJ.nShots, everything, len(aps), bpms is None, f'{np.nansum(ref[0]):.6g}')


# ---------------------------------------------------------------- transmission
def transmission(ctx):
    rng = ctx.rng
    a = float(rng.uniform(3e-4, 2e-3))
    sc, o = machine(ctx, ring_kw=dict(apertures=[a, a]))
    n, p = int(rng.integers(1, 12)), int(rng.integers(1, 30))
    sc.INJ.beamLostAt = float(rng.choice([1.0, 0.5, 0.3]))
    (turns, frac), figs = figures(lambda: beam_transmission(sc, nParticles=p, nTurns=n, plot=True))
    ctx.check(len(figs) == 1, f'{len(figs)} figures')
    ax = figs[0].axes[0]
    drawn(ctx, ax, np.arange(n), 100 * frac, 'transmission')
    level = [q for q in curves(ax) if len(q) == 2 and np.allclose(q[:, 1], 100 * (1 - sc.INJ.beamLostAt)) and np.ptp(q[:, 0]) == n]
    ctx.check(len(level) > 0, 'the loss threshold is not drawn where it is')
    ctx.sig(n, p, sc.INJ.beamLostAt, f'{np.sum(frac):.6g}')


# ---------------------------------------------------------------- phase space
def phase_space(ctx):
    rng = ctx.rng
    sc, o = machine(ctx, scale=float(rng.choice([0.03, 0.3])), ring_kw=dict(apertures=[0.01, 0.01] if rng.random() < 0.4 else None))
    n, p = int(rng.integers(1, 10)), int(rng.integers(1, 5))
    ords = np.array([int(rng.integers(len(sc.RING)))])
    hook = Same(int(rng.integers(2 ** 31)))
    sc.INJ.postFun = hook
    hook.restart()
    kw = dict(ords=ords, nTurns=n)
    if rng.random() < 0.5:
        bunch = rng.normal(0, 1, (6, p)) * np.array([1e-4, 1e-5, 1e-4, 1e-5, 1e-4, 1e-3])[:, None]
        if rng.random() < 0.4:
            bunch[0, 0] = 0.02
        kw['custom_bunch'] = bunch.copy()
    else:
        kw['nParticles'] = p
    off = rng.random() < 0.25
    if off:
        sc.RING[sc.ORD.RF[0]].PassMethod = 'IdentityPass'
    co = bool(rng.random() < 0.5) and not off
    _, figs = quiet(ctx, sc, lambda: plot_phase_space(sc, plotCO=co, **kw))
    z = kw['custom_bunch'] if 'custom_bunch' in kw else hook.log[0]
    ring = at.Lattice([e.deepcopy() for e in sc.RING], energy=sc.RING.energy, periodicity=1)
    T = at.lattice_track(ring, np.asfortranarray(z.copy()), nturns=n, refpts=ords)[0][:, :, 0, :]
    T[:, np.isnan(T[0])] = np.nan
    if not off:
        cav = sc.RING[sc.ORD.RF[0]]
        T[5] -= (C * cav.HarmNumber / cav.Frequency - at.get_s_pos(sc.RING)[-1]) * np.arange(n)
    rows = [(0, 1, 1e6, 1e6), (2, 3, 1e6, 1e6), (5, 4, 1.0, 1e2)]
    for ax, (i, j, u, v) in zip(figs[0].axes, rows):
        want = points(u * T[i], v * T[j])
        have = np.concatenate([points(*np.ma.asarray(c.get_offsets()).T) for c in ax.collections])
        scale = np.max(np.abs(want), axis=0) + 1e-9 if len(want) else np.ones(2)
        ctx.check(same(have, want, scale), f'coordinates {i, j}: {len(have)} points drawn, {len(want)} expected ({have[:3].tolist()}, {want[:3].tolist()})')
        ctx.event('phase space points', len(want))
        drawn(ctx, ax, u * sc.INJ.Z0[i], v * sc.INJ.Z0[j], f'injection point in coordinates {i, j}')
        if co:
            try:
                orb = at.find_orbit6(ring, ords)[1][0]
            except at.AtError:
                continue
            if np.all(np.isfinite(orb)):
                drawn(ctx, ax, u * orb[i], v * orb[j], f'closed orbit in coordinates {i, j}')
    ctx.sig(n, p, off, co, 'custom_bunch' in kw, int(ords[0]), f'{np.nansum(T):.6g}')


# ---------------------------------------------------------------- corrector strengths
def correctors(ctx):
    rng = ctx.rng
    sc, o = machine(ctx, ring_kw=dict(corr_elements=bool(rng.random() < 0.5)))
    for d in range(2):
        sc.set_cm_setpoints(sc.ORD.CM[d], rng.normal(0, 3e-4, len(sc.ORD.CM[d])), bool(d))
    _, figs = quiet(ctx, sc, lambda: plot_cm_strengths(sc))
    top, low = figs[0].axes[:2]
    s = at.get_s_pos(sc.RING)
    bars = [np.array([(b.get_x() + b.get_width() / 2, b.get_height()) for b in c]) for c in top.containers]
    for d in range(2):
        sp = 1e6 * np.array([sc.get_cm_setpoints(int(i), bool(d))[0] if np.ndim(sc.get_cm_setpoints(int(i), bool(d))) else sc.get_cm_setpoints(int(i), bool(d)) for i in sc.ORD.CM[d]])
        want = points(s[sc.ORD.CM[d]], sp)
        ctx.check(any(same(q, want, np.max(np.abs(want), axis=0)) for q in bars), f'bars of plane {d}: none of the {len(bars)} sets shows the setpoints')
        ok = False
        for q in curves(low):  # a cumulative distribution of these setpoints
            eps = 1e-6 * np.max(np.abs(sp))
            least, most = np.mean(sp[None] < q[:, :1] - eps, axis=1), np.mean(sp[None] <= q[:, :1] + eps, axis=1)
            ok = ok or (len(q) > 1 and np.all(q[:, 1] >= least - 1e-9) and np.all(q[:, 1] <= most + 1e-9) and abs(q[:, 1].max() - 1) < 1e-9)
        ctx.check(ok, f'no cumulative distribution of the setpoints of plane {d}')
        ctx.event('curves compared', 2)
        ctx.sig(d, f'{np.sum(sp):.8g}')


# ---------------------------------------------------------------- supports and misalignments
def supports(ctx):
    rng = ctx.rng
    sc, o = machine(ctx, supports=bool(rng.random() < 0.9))
    whole = rng.random() < 0.5
    if rng.random() < 0.5:  # full three-dimensional errors, and a girder across the end of the ring
        for i in sc.ORD.Magnet:
            sc.RING[i].MagnetOffset = rng.normal(0, 5e-5, 3)
            sc.RING[i].MagnetRoll = rng.normal(0, 5e-5, 3)
        n = sc.ORD.Girder.shape[1]
        if n > 2 and rng.random() < 0.6:  # the last girder reaches across the end of the ring
            a, b = sc.ORD.Girder[:, np.argsort(sc.ORD.Girder[0])]
            sc.ORD.Girder = np.vstack((a[1:], np.append(b[1:-1], b[0])))
        for t in ('Girder', 'Plinth', 'Section'):
            for a, b in sc.ORD[t].T:
                for i in (a, b):
                    setattr(sc.RING[i], t + 'Offset', rng.normal(0, 5e-5, 3))
                setattr(sc.RING[a], t + 'Roll', np.array([rng.normal(0, 5e-5), 0, 0]))
        sc.update_supports()
    s = at.get_s_pos(sc.RING)
    lim = None if whole else tuple(np.sort(rng.uniform(0, s[-1], 2)) + np.array([0, 6.0]))
    _, figs = quiet(ctx, sc, lambda: plot_support(sc) if lim is None else plot_support(sc, x_lim=lim))
    lim = (0, s[-1]) if lim is None else lim
    ctx.check(len(figs) == 1 and len(figs[0].axes) == 18, 'eighteen axes are documented by their titles')
    axes = np.array(figs[0].axes).reshape(9, 2)
    m, b = sc.ORD.Magnet, sc.ORD.BPM
    R = sc.RING
    get = lambda ords, name: np.array([np.atleast_1d(getattr(R[i], name)) for i in ords], dtype=float)
    for d in range(3):
        for col, field in ((0, 'Offset'), (1, 'Roll')):
            what = f'{field} {d}'
            ax = axes[3 * d, col]
            sup = get(m, 'Support' + field)[:, d]
            drawn(ctx, ax, s[m], 1e6 * sup, f'support {what} at the magnets')
            for t in ('Section', 'Plinth', 'Girder'):
                for a, e in sc.ORD[t].T:
                    if not (lim[0] <= s[a] <= lim[1] or lim[0] <= s[e] <= lim[1]):
                        continue
                    y = [getattr(R[a], t + field)[d], getattr(R[e], t + field)[d]] if col == 0 else [getattr(R[a], t + field)[d]] * 2
                    if s[e] >= s[a]:
                        drawn(ctx, ax, s[[a, e]], 1e6 * np.array(y), f'{t} {what}')
                        continue
                    end = y[0] + (y[1] - y[0]) * (s[-1] - s[a]) / (s[-1] - s[a] + s[e])
                    drawn(ctx, ax, [s[a], s[-1]], 1e6 * np.array([y[0], end]), f'{t} {what} up to the end of the ring')
                    drawn(ctx, ax, [0.0, s[e]], 1e6 * np.array([end, y[1]]), f'{t} {what} from the start of the ring')
                    ctx.event('supports across the end')
            stairs = [q for q in ax.patches if hasattr(q, 'get_data')]
            ctx.check(len(stairs) == 1, f'{len(stairs)} step curves for the supports')
            val, edges = stairs[0].get_data()[:2]
            own = sc.support_offset_and_roll(np.array(edges[:-1]))[col][d]
            ctx.close(np.array(val), 1e6 * own, f'support {what} along the ring', rtol=1e-6, atol=1e-6)
            ctx.check(edges[0] <= lim[0] + 1e-9 and edges[-1] >= lim[1] - 1e-9, f'support curve from {edges[0]} to {edges[-1]} in the range {lim}')
            ax = axes[3 * d + 1, col]
            ind = get(m, 'Magnet' + field)[:, d]
            drawn(ctx, ax, s[m], 1e6 * ind, f'individual {what} of the magnets')
            if col:
                drawn(ctx, ax, s[m], 1e6 * (ind + sup), f'overall {what} of the magnets')
            else:  # rotations about the entrance move the exit
                turn = np.abs(get(m, 'SupportRoll') + get(m, 'MagnetRoll')).sum(axis=1)
                bend = np.array([abs(getattr(R[i], 'BendingAngle', 0.0)) for i in m])
                tol = 1e6 * (2 * turn * (1e-3 + np.array([getattr(R[i], 'Length', 0.0) for i in m])) + 2 * bend * np.linalg.norm(get(m, 'SupportOffset') + get(m, 'MagnetOffset'), axis=1)) + 0.01
                want = 1e6 * (ind + sup)
                ctx.check(any(len(q) == len(m) and np.all(np.abs(q[:, 1] - want) <= tol) and np.allclose(q[:, 0], s[m]) for q in curves(ax)),
                          f'overall {what} of the magnets is not drawn: expected {want[:4]}, have {[q[:4, 1] for q in curves(ax)]}')
            ax = axes[3 * d + 2, col]
            n = get(b, field).shape[1]
            drawn(ctx, ax, s[b], 1e6 * (get(b, field)[:, d] if d < n else np.zeros(len(b))), f'{what} of the monitors')
            n = get(b, 'Support' + field).shape[1]
            drawn(ctx, ax, s[b], 1e6 * (get(b, 'Support' + field)[:, d] if d < n else np.zeros(len(b))), f'support {what} of the monitors')
    ctx.sig(whole, f'{lim}', f'{np.sum(get(m, "SupportOffset")):.8g}')


# ---------------------------------------------------------------- lattice, optics, apertures, synoptic
def extents(ax):
    out = []
    for c in ax.collections:
        out.append(sorted((round(p.vertices[:, 0].min(), 6), round(p.vertices[:, 0].max(), 6)) for p in c.get_paths()))
    return out


def synoptic(ctx, ax, sc, correctors_):
    R = sc.IDEALRING
    s = at.get_s_pos(R)
    span = lambda ords: sorted((round(float(s[i]), 6), round(float(s[i] + getattr(R[i], 'Length', 0.0)), 6)) for i in ords)
    if correctors_:
        groups = dict(monitors=sc.ORD.BPM, skew=sc.ORD.SkewQuad, hcm=sc.ORD.HCM, vcm=sc.ORD.VCM)
        shrink = dict(monitors=1.0, skew=0.9, hcm=0.9, vcm=0.95)
    else:
        groups = dict(dipole=[i for i, e in enumerate(R) if isinstance(e, at.Dipole)], quadrupole=[i for i, e in enumerate(R) if isinstance(e, at.Quadrupole)],
                      sextupole=[i for i, e in enumerate(R) if isinstance(e, at.Sextupole)], monitors=[i for i, e in enumerate(R) if isinstance(e, at.Monitor)])
        shrink = dict.fromkeys(groups, 1.0)
    have = [[a for a, _ in e] for e in extents(ax)]
    full = extents(ax)
    for name, ords in groups.items():
        want = [(a, round(a + shrink[name] * (b - a), 6)) for a, b in span(ords)]
        ok = any(len(q) == len(want) and np.allclose(np.array(q).reshape(-1, 2), np.array(want).reshape(-1, 2), atol=2e-6) for q in full)
        if not ok and correctors_ and name != 'monitors':  # the drawn width is a matter of style
            ok = any(len(q) == len(want) and np.allclose(q, [a for a, _ in want], atol=2e-6) for q in have)
        ctx.check(ok, f'{name}: no group of shapes at the places of these {len(want)} elements')
        ctx.event('synoptic groups')


def lattice(ctx):
    rng = ctx.rng
    sc, o = machine(ctx, scale=0.1, ring_kw=dict(corr_elements=bool(rng.random() < 0.3)))
    where = {}
    for r in (sc.RING, sc.IDEALRING):
        for i in range(1, len(r)):
            if rng.random() < 0.2 and r is (sc.RING if rng.random() < 0.5 else sc.IDEALRING):
                if rng.random() < 0.5:
                    r[i].EApertures = rng.uniform(5e-3, 0.15, 2)
                else:
                    r[i].RApertures = np.array([-1, 1, -1, 1]) * rng.uniform(5e-3, 0.15, 4)
    ideal = bool(rng.random() < 0.4)
    ring = sc.IDEALRING if ideal else sc.RING
    s = at.get_s_pos(ring)
    kw, lim = {}, (0.0, s[-1])
    k = int(rng.integers(4))
    if k == 1:
        lim = tuple(np.sort(rng.uniform(0, s[-1], 2)))
        kw['s_range'] = np.array(lim)
    elif k == 2:
        ind = rng.choice(len(ring), 3, replace=False)
        lim = (s[ind.min()], s[ind.max()])
        kw['indices'] = ind
    elif k == 3:
        n = int(rng.integers(2, 5))
        lim = (0.0, s[-1] / n)
        kw['n_sectors'] = n
    if lim[1] - lim[0] < 1.0:
        raise Skip('range too short')
    ctx.note(ideal=ideal, **kw)
    try:
        own = ring.deepcopy()
        fine = own.slice(slices=4000)
        _, _, data = at.get_optics(fine, range(len(fine) + 1), get_chrom=True)
    except Exception as e:
        raise Skip(f'no optics: {e}')
    if np.any(np.isnan(data.beta)):
        raise Skip('no optics')
    _, figs = quiet(ctx, sc, lambda: plot_lattice(sc, ideal_ring=ideal, **kw))
    axes = figs[0].axes
    top, cent, bottom = axes[:3]
    for ax in (top, cent, bottom):
        ctx.close(np.array(ax.get_xlim()), np.array(lim), 'range of the figure', rtol=1e-6, atol=1e-6)
    twins = axes[3:]
    grid = data.s_pos
    inside = (grid >= lim[0]) & (grid <= lim[1])

    def follows(q, y, tol):
        sel = (q[:, 0] >= lim[0] - 1e-6) & (q[:, 0] <= lim[1] + 1e-6)
        return len(q) > 5 and q[sel, 0].min() <= lim[0] + 1.0 and q[sel, 0].max() >= lim[1] - 1.0 and np.all(np.abs(np.interp(q[:, 0], grid, y) - q[:, 1]) <= tol)
    for name, y, pool, unit in (('horizontal beta', data.beta[:, 0], [top], 1.0), ('vertical beta', data.beta[:, 1], [top], 1.0), ('dispersion', data.dispersion[:, 0], twins, 100.0)):
        y = unit * y
        ctx.check(any(follows(q, y, 0.02 * np.max(np.abs(y))) for ax in pool for q in curves(ax)), f'{name} is not drawn')
        ctx.event('curves compared')
    # every aperture point belongs to an aperture at that place, and each kind and plane has its curve
    length = [getattr(e, 'Length', 0.0) for e in ring]
    lines = curves(cent)
    ctx.check(len(lines) >= 4, f'{len(lines)} aperture curves')
    for j, (attr, plane) in enumerate((('EApertures', 0), ('EApertures', 1), ('RApertures', 0), ('RApertures', 1))):
        want = []
        for i, e in enumerate(ring):
            if hasattr(e, attr):
                v = np.array(getattr(e, attr), dtype=float)
                pair = (-v[plane], v[plane]) if attr[0] == 'E' else tuple(v[2 * plane:2 * plane + 2])
                want += [(s[i], s[i] + length[i], p) for p in pair if abs(p) <= 0.1]
        q = lines[j]
        for x, y in q[::max(1, len(q) // 60)]:
            ctx.check(any(a - 1e-6 <= x <= b + 1e-6 and abs(1e3 * p - y) < 1e-6 for a, b, p in want), f'{attr} of plane {plane}: {y} mm drawn at {x} m')
        for a, b, p in want:
            if lim[0] + 1e-6 < a and b < lim[1] - 1e-6:
                ctx.check(np.any((q[:, 0] >= a - 1e-6) & (q[:, 0] <= b + 1e-6) & (np.abs(q[:, 1] - 1e3 * p) < 1e-6)), f'{attr} of {1e3 * p} mm in plane {plane} at {a} m is not drawn')
        ctx.event('aperture curves', len(want) > 0)
    groups = [ax for ax in twins if ax.collections]
    ctx.check(len(groups) >= 2, 'no synoptic')
    synoptic(ctx, max(groups, key=lambda ax: len(ax.collections) if len(ax.collections) == 5 else 0), sc, False)
    synoptic(ctx, next(ax for ax in groups if len(ax.collections) == 4), sc, True)
    ctx.sig(k, ideal, f'{lim}', f'{np.sum(data.beta):.6g}')


# ---------------------------------------------------------------- beam-based alignment
def alignment(ctx):
    rng = ctx.rng
    sc, o = machine(ctx)
    n, planes = int(rng.integers(6, len(sc.ORD.BPM) + 1)), 2
    bpms = np.array([rng.choice(sc.ORD.BPM, n, replace=False) for _ in range(planes)])
    if rng.random() < 0.4:
        bpms = np.sort(bpms, axis=1)
    mags = np.array([rng.choice(np.concatenate((o['qf'], o['qd'])), n, replace=False) for _ in range(planes)])
    where = np.array([[int(np.where(sc.ORD.BPM == i)[0][0]) for i in row] for row in bpms])
    off = rng.normal(0, 4e-4, (2, n))
    err = np.abs(rng.normal(0, 3e-5, (2, n)))
    off[rng.random((2, n)) < 0.15] = np.nan
    off[rng.random((2, n)) < 0.1] *= 20
    flags = rng.random((2, n)) < 0.3
    bad = bba.is_bba_errored(off, err)
    _, figs = quiet(ctx, sc, lambda: bba.plot_bba_results(sc, bpms, off.copy(), err.copy()))
    for d in range(2):
        ax = figs[0].axes[d]
        for sel, name in ((~bad[d], 'measured'), (bad[d], 'failed')):
            drawn(ctx, ax, where[d][sel], 1e6 * off[d][sel], f'{name} offsets of plane {d}')
        bars = [seg for c in ax.collections for seg in c.get_segments() if np.all(np.isfinite(seg)) and len(seg) == 2]
        want = sorted((where[d][k], round(1e6 * 2 * err[d, k], 6)) for k in range(n) if np.isfinite(off[d, k]))
        have = sorted((int(round(seg[0][0])), round(abs(seg[1][1] - seg[0][1]), 6)) for seg in bars)
        ctx.check(len(want) == len(have) and np.allclose(want, have, atol=1e-4), f'error bars of plane {d}: {have[:4]}, expected {want[:4]}')
    _, figs = quiet(ctx, sc, lambda: bba.plot_bpm_offsets_from_magnets(sc, bpms, mags, flags.copy()))
    R = sc.RING
    fom = 1e6 * np.array([[R[b].Offset[d] + R[b].SupportOffset[d] - R[m].MagnetOffset[d] - R[m].SupportOffset[d] for b, m in zip(bpms[d], mags[d])] for d in range(2)])
    for d in range(2):
        ax = figs[0].axes[d + 1]
        for sel, name in ((~flags[d], 'aligned'), (flags[d], 'failed')):
            if np.any(sel):
                drawn(ctx, ax, where[d][sel], fom[d][sel], f'offsets of {name} monitors of plane {d} from their magnets')
        ctx.check(any(len(q) and abs(q[:, 1].sum() - n) < 1e-9 for q in curves(figs[0].axes[0])), f'no histogram of {n} monitors')
    rms = [np.sqrt(np.mean(fom[d] ** 2)) for d in range(2)]
    text = ' '.join(t.get_text() for t in figs[0].axes[0].get_legend().get_texts())
    ctx.check(all(f'{r:.0f}' in text for r in rms), f'rms of {rms} announced as {text}')
    ctx.sig(n, f'{np.nansum(off):.8g}')


# ---------------------------------------------------------------- fits: RF, injection, tune scan
def rf(ctx):
    from checks import c19_rf as c19
    rng = ctx.rng
    losses = rng.random() < 0.3
    sc, o, noise, n_cav, lam = c19.machine(ctx, n_cav=1, ap=[float(rng.uniform(0.001, 0.008))] * 2 if losses else None)
    phase = rng.random() < 0.5
    sc.INJ.nTurns, n_steps = int(rng.choice([5, 8])), int(rng.choice([8, 15]))
    field, func = ('TimeLag', correct_rf_phase) if phase else ('Frequency', correct_rf_frequency)
    shots = c19.Shots(sc, field, int(rng.integers(2 ** 31)))
    sc.INJ.postFun = shots
    ref, first = sc.very_deep_copy(), c19.setpoints(sc, field)
    (out, err, warn), figs = figures(lambda: c19.run(func, sc, n_steps=n_steps, plot_results=True, plot_progress=bool(rng.random() < 0.3)))
    if err is not None:
        raise Skip(str(err))
    step = float(c19.setpoints(sc, field)[0] - first[0])
    vec = lam * np.linspace(-0.5, 0.5, n_steps) if phase else np.linspace(-1e3, 1e3, n_steps)
    lam = C / ref.RING[ref.ORD.RF[0]].FrequencySetPoint
    vec = lam * np.linspace(-0.5, 0.5, n_steps) if phase else vec
    m = shots.scan(ctx, ref, first, ref.ORD.RF, vec, ref.ORD.BPM, 'scan')
    unit = 360 / lam if phase else 1e-3
    ax = figs[-1].axes[0]
    drawn(ctx, ax, unit * vec, 1e6 * m[:, 0], 'measured shifts')
    drawn(ctx, ax, unit * step, 0.0, 'the correction')
    fit = [q for q in curves(ax) if len(q) == np.sum(np.isfinite(m[:, 0])) and not np.allclose(q[:, 1], 1e6 * m[np.isfinite(m[:, 0]), 0])]
    if fit:  # the start lies on the fit
        q = fit[0]
        start = [c for c in curves(ax) if len(c) == 1 and abs(c[0, 0]) < 1e-12 and (abs(c[0, 1]) > 0 or step == 0)]
        ctx.check(len(start) > 0, 'initial setting is not marked')
        if start and np.any(np.abs(q[:, 0]) < 1e-9):
            y0 = q[np.argmin(np.abs(q[:, 0])), 1]
            ctx.check(any(abs(c[0, 1] - y0) < 1e-6 * max(1, abs(y0)) for c in start), f'initial setting at {[c[0, 1] for c in start]}, the fit there is {y0}')
        r = 1e6 * m[np.isfinite(m[:, 0]), 0] - q[:, 1]
        ctx.check(np.std(r) <= np.std(1e6 * m[np.isfinite(m[:, 0]), 0]) * 1.05 + 1e-6, 'the fit does not follow the measurement')
    ctx.event('scans')
    ctx.sig(phase, n_steps, f'{step:.6g}')


def injection(ctx):
    rng = ctx.rng
    sc, o = machine(ctx, scale=float(rng.choice([0.01, 0.1])), noise=bool(rng.random() < 0.5))
    hook = Same(int(rng.integers(2 ** 31)))
    sc.INJ.postFun = hook
    s = at.get_s_pos(sc.RING)
    z0 = sc.INJ.Z0.copy()
    if rng.random() < 0.5:
        sc.INJ.nTurns = 2
        hook.restart()
        ref = bpm_reading(sc)[0]
        hook.restart()
        d, figs = figures(lambda: fit_injection_drift(sc, plot=True))
        n = len(sc.ORD.BPM)
        sb = np.array([s[sc.ORD.BPM[-1]] - s[-1], s[sc.ORD.BPM[0]]])
        for k in range(2):
            ax = figs[0].axes[k]
            drawn(ctx, ax, sb, 1e3 * ref[k, [n - 1, n]], f'readings of plane {k}')
            # a straight line through two points passes through them: both curves show the readings
            drawn(ctx, ax, sb, -1e3 * (d[2 * k + 1] * sb + d[2 * k]), f'fitted trajectory of plane {k}')
            two = points(sb, 1e3 * ref[k, [n - 1, n]])
            found = sum(same(h, two, np.max(np.abs(two), axis=0)) for h in curves(ax))
            ctx.check(found >= 2, f'plane {k}: {found} curves pass through the readings, not the readings and the fit')
            drawn(ctx, ax, sb, 1e3 * (z0[2 * k + 1] * sb + z0[2 * k]), f'real trajectory of plane {k}')
            ctx.check(('Hor' if k == 0 else 'Ver') in ax.get_ylabel(), f'label {ax.get_ylabel()} of plane {k}')
    else:
        inds = np.sort(rng.choice(len(sc.ORD.BPM), int(rng.integers(3, 6)), replace=False))
        hook.restart()
        ref = bpm_reading(sc)[0][:, inds]
        hook.restart()
        d, figs = figures(lambda: fit_injection_trajectory(sc, bpm_inds=inds, plot=True))
        hook.restart()
        bpm_reading(sc)
        own = sc.very_deep_copy()
        hook.restart()
        own.INJ.Z0 = z0.copy()
        bpm_reading(own)
        own.INJ.Z0 = sc.INJ.Z0
        new = bpm_reading(own)[0][:, inds]
        for k in range(2):
            ax = figs[0].axes[k]
            drawn(ctx, ax, s[sc.ORD.BPM[inds]], 1e3 * ref[k], f'initial readings of plane {k}')
            drawn(ctx, ax, s[sc.ORD.BPM[inds]], 1e3 * new[k], f'readings after the correction of plane {k}')
            ctx.check(('Hor' if k == 0 else 'Ver') in ax.get_ylabel(), f'label {ax.get_ylabel()} of plane {k}')
    ctx.sig(f'{np.sum(d):.8g}')


def scan(ctx):
    rng = ctx.rng
    sc, o = machine(ctx, scale=0.1, ring_kw=dict(apertures=[2e-3, 2e-3]))
    fams = [o['qf'], o['qd']]
    rel = [np.linspace(*np.sort(1 + rng.uniform(-0.05, 0.05, 2)), int(rng.integers(3, 8))) for _ in range(2)]
    n = int(rng.integers(4, 12))
    try:
        (_, sp, turns, trans), figs = figures(lambda: tune_scan(sc, fams, rel, n_points=n, nParticles=1, nTurns=int(rng.integers(2, 6)), do_plot=True, full_scan=bool(rng.random() < 0.7)))
    except RuntimeError as e:
        raise Skip(str(e))
    names = [sc.RING[f[0]].FamName for f in fams]
    axes = [ax for ax in figs[0].axes if ax.images]
    ctx.check(len(axes) >= 2, f'{len(axes)} maps')
    # the last two maps belong to the last visited pair
    for ax, data, what in ((axes[-2], 100 * trans[:, :, -1], 'transmission'), (axes[-1], turns, 'turns')):
        A = np.ma.filled(np.ma.asarray(ax.images[-1].get_array(), dtype=float), np.nan)
        ix = [k for k in range(2) if names[k] in ax.get_xlabel()]
        iy = [k for k in range(2) if names[k] in ax.get_ylabel()]
        ctx.check(len(ix) == 1 and len(iy) == 1 and ix != iy, f'axes labelled {ax.get_xlabel()} and {ax.get_ylabel()}')
        want = data if iy[0] == 0 else data.T  # rows of an image run along the vertical axis
        ctx.check(A.shape == want.shape and np.array_equal(np.isnan(A), np.isnan(want)) and np.allclose(A[~np.isnan(A)], want[~np.isnan(want)]),
                  f'map of the {what}: {A.tolist()} under labels {ax.get_xlabel()}, {ax.get_ylabel()}, measured {want.tolist()}')
        for ticks, labels, k in ((ax.get_xticks(), ax.get_xticklabels(), ix[0]), (ax.get_yticks(), ax.get_yticklabels(), iy[0])):
            for t, lab in zip(ticks, labels):
                ctx.check(0 <= t < len(rel[k]) and abs(float(lab.get_text().replace('\\u2212', '-')) - (rel[k][int(t)] - 1)) < 2e-5, f'tick {t} of family {names[k]} ({len(rel[k])} settings) labelled {lab.get_text()}')
    ctx.sig(len(rel[0]), len(rel[1]), n, f'{np.nansum(trans):.6g}')


# ---------------------------------------------------------------- linear algebra, optics and apertures
def numbers(ctx):
    rng = ctx.rng
    k = int(rng.integers(4))
    if k == 0:
        A = rng.normal(size=(int(rng.integers(2, 9)), int(rng.integers(2, 9))))
        kw = {}
        if rng.random() < 0.5:
            kw['alpha'] = float(rng.uniform(0.1, 2))
        if rng.random() < 0.5:
            kw['damping'] = float(rng.uniform(0.1, 1))
        _, figs = figures(lambda: pinv(A, plot=True, **kw))
        sv = np.linalg.svd(A, compute_uv=False)
        drawn(ctx, figs[0].axes[0], np.arange(len(sv)), sv / sv[0], 'singular values')
        inv = kw.get('damping', 1.0) * sv / (sv ** 2 + kw.get('alpha', 0.0) ** 2)
        drawn(ctx, figs[0].axes[1], np.arange(len(sv)), sv * inv, 'products of singular values and their inverses')
        ctx.sig(k, A.shape, f'{sv[0]:.8g}')
    elif k == 1:
        sc, o = machine(ctx, scale=0.1)
        mags = subset(rng, sc.ORD.Magnet) if rng.random() < 0.7 else None
        try:
            orb = at.find_orbit6(sc.RING.deepcopy(), sc.ORD.Magnet if mags is None else mags)[1]
        except at.AtError:
            raise Skip('no closed orbit')
        if np.any(np.isnan(orb)):
            raise Skip('no closed orbit')
        cod, figs = quiet(ctx, sc, lambda: SCgetCOD(sc, ords=mags, plot=True))
        m = sc.ORD.Magnet if mags is None else mags
        s = at.get_s_pos(sc.RING)[m]
        for d in range(2):
            ax = figs[0].axes[d]
            drawn(ctx, ax, s, 1e3 * cod[d], f'orbit in the magnets of plane {d}')
            drawn(ctx, ax, s, 1e3 * orb[:, 2 * d], f'orbit of plane {d}')
            drawn(ctx, ax, s, 1e3 * (orb[:, 2 * d] - cod[d]), f'magnet offsets of plane {d}')
            ctx.check(('x' if d == 0 else 'y') in ax.get_ylabel(), f'label {ax.get_ylabel()} of plane {d}')
        ctx.sig(k, len(m), f'{np.sum(cod):.8g}')
    elif k == 2:
        sc, o = machine(ctx, scale=0.5)
        ords = subset(rng, np.arange(len(sc.RING)), 5)
        ring = sc.RING.deepcopy()
        try:
            _, _, ideal = at.get_optics(sc.IDEALRING.deepcopy(), ords)
            _, _, real = at.get_optics(ring, ords)
        except Exception as e:
            raise Skip(f'no optics {e}')
        if np.any(np.isnan(real.beta)):
            raise Skip('no optics')
        _, figs = figures(lambda: loco.model_beta_beat(sc.RING, ideal, ords, plot=True))
        for d in range(2):
            drawn(ctx, figs[0].axes[d], at.get_s_pos(ring)[ords], real.beta[:, d] / ideal.beta[:, d] - 1, f'beta beating of plane {d}')
            ctx.check(('x' if d == 0 else 'y') in figs[0].axes[d].get_ylabel(), f'label {figs[0].axes[d].get_ylabel()} of plane {d}')
        ctx.sig(k, len(ords), f'{np.sum(real.beta):.8g}')
    else:
        ring = gen.make_ring(rng, rf=False, apertures=[5e-3, 4e-3])
        th = np.linspace(0, 2 * np.pi, int(rng.integers(3, 7)))
        (da, r, t), figs = figures(lambda: SCdynamicAperture(ring, 0.0, nturns=2, thetas=th, accuracy=1e-4, centerOnOrbit=False, bounds=np.array([0, 6e-3]), plot=True))
        have = np.concatenate([points(*np.ma.asarray(c.get_offsets()).T) for c in figs[0].axes[0].collections])
        want = points(np.cos(th) * r, np.sin(th) * r)
        ctx.check(same(have, want, np.max(np.abs(want), axis=0)), f'dynamic aperture drawn at {have.tolist()}, reported {want.tolist()}')
        ctx.sig(k, len(th), f'{da:.8g}')
    ctx.event('curves compared')


SCENARIOS = dict(readings=Scenario(readings, 60, 900), transmission=Scenario(transmission, 16, 150), phase_space=Scenario(phase_space, 30, 400),
                 correctors=Scenario(correctors, 16, 150), supports=Scenario(supports, 10, 120), lattice=Scenario(lattice, 12, 150),
                 alignment=Scenario(alignment, 24, 300), rf=Scenario(rf, 16, 200), injection=Scenario(injection, 20, 250), scan=Scenario(scan, 10, 120),
                 numbers=Scenario(numbers, 40, 500))
