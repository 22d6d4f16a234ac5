"""C29: random programs (registration, errors, readings, bunches, corrections) run twice from the same seed in one process and again in fresh processes with another hash seed, clock, processor set and history; all results and states compared step by step."""
import gc
import json
import os
import pickle
import random as pyrandom
import subprocess
import sys
import tempfile
import time

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common  # noqa: E402
import numpy as np  # noqa: E402
import at  # noqa: E402
from vlib import gen, snap  # noqa: E402
from vlib.common import Inconclusive, Scenario, Skip  # noqa: E402
from pySC.core.beam import all_elements_reading, beam_transmission, bpm_reading, generate_bunches  # noqa: E402
from pySC.core.simulated_commissioning import SimulatedCommissioning  # noqa: E402
from pySC.correction import loco, orbit_trajectory  # noqa: E402
from pySC.correction.bba import fake_bba, trajectory_bba  # noqa: E402
from pySC.correction.injection_fit import fit_injection_drift, fit_injection_trajectory  # noqa: E402
from pySC.correction.rf import correct_rf_frequency, correct_rf_phase  # noqa: E402
from pySC.correction.tune import tune_scan  # noqa: E402
from pySC.lattice_properties.response_measurement import dispersion, response_matrix  # noqa: E402
from pySC.lattice_properties.response_model import SCgetModelRM  # noqa: E402
from pySC.utils import sc_tools  # noqa: E402

PID = 'C29'
RULE = ('random programs of registrations, error applications, multipole assignments, readings, transmissions, measurements and corrections on random machines; repeated from the same seed after other '
        'programs, with another clock and another state of unrelated generators, in fresh processes with other hash seeds, processors and directories. Distinct by program.')
ASSUMPTIONS = ['the seed is set with numpy.random.seed; results agree within 1e-7, far below anything random and above rounding',
               'the optics fit measurement is taken with the same arguments each time']


def program(p_seed, np_seed, light=False):
    """Runs the program given by p_seed with the global seed np_seed; returns [(step name, outcome, machine)]."""
    rng = np.random.default_rng([29, p_seed])
    steps = []
    ring = gen.make_ring(rng, corr_elements=bool(rng.random() < 0.4), split_bends=bool(rng.random() < 0.3), cf_bends=bool(rng.random() < 0.2), apertures=[0.02, 0.01] if rng.random() < 0.4 else None)
    np.random.seed(np_seed)
    sc = SimulatedCommissioning(ring)
    o = gen.register_all(sc, rng, scale=float(rng.choice([0.3, 1.0])), circ=bool(rng.random() < 0.4), corr=True, skew=bool(rng.random() < 0.7))
    if rng.random() < 0.3:
        sc.register_magnets(o['sf'], MagnetOffset=[np.array([1e-5, 1e-5, 0.0]), float(rng.choice([1, 3]))])
    sc.INJ.nParticles = int(rng.choice([1, 1, 4]))
    sc.INJ.nTurns = int(rng.choice([1, 2]))
    sc.INJ.nShots = int(rng.choice([1, 2]))
    sc.INJ.trackMode = str(rng.choice(['TBT', 'TBT', 'ORB', 'PORB']))

    def step(name, f):
        try:
            out = f()
            out = 'machine' if isinstance(out, SimulatedCommissioning) else snap.freeze(out)
        except (RuntimeError, ValueError, at.AtError) as e:
            out = ['raised', type(e).__name__]
        state = snap.machine(sc)
        state['INJ'].pop('postFun')  # an address
        steps.append((name, out, state))

    def mode(m, turns=1, shots=None):
        sc.INJ.trackMode, sc.INJ.nTurns = m, turns
        if shots:
            sc.INJ.nShots = shots

    step('apply', lambda: sc.apply_errors(float(rng.choice([1, 2, 3]))))
    names = ['reading', 'all', 'bunch', 'transmission', 'multipoles', 'apply', 'op', 'support', 'response', 'dispersion', 'randnc', 'model']
    if not light:
        names += ['first', 'stitch', 'balance', 'correct', 'bba', 'pseudo', 'frequency', 'phase', 'tune', 'inject', 'drift', 'loco', 'jacobian']
    for name in rng.choice(names, int(rng.integers(3, 7))):
        if name == 'reading':
            step(name, lambda: bpm_reading(sc))
        elif name == 'all':
            step(name, lambda: all_elements_reading(sc))
        elif name == 'bunch':
            step(name, lambda: generate_bunches(sc, int(rng.integers(1, 30))))
        elif name == 'transmission':
            step(name, lambda: beam_transmission(sc, int(rng.integers(2, 40)), int(rng.integers(1, 5))))
        elif name == 'multipoles':
            step(name, lambda: sc.set_random_multipole_errors(o['qf'], 1e-4 * np.ones((4, 2))))
        elif name == 'apply':
            step(name, lambda: sc.apply_errors())
        elif name == 'op':
            what, f = gen.random_op(sc, o, rng)
            step(what, f)
        elif name == 'support':
            step(name, lambda: sc.register_supports(o['Girder'], 'Girder', Offset=[1e-5 * np.ones((2, 3)), 1]))
        elif name == 'response':
            mode(str(rng.choice(['TBT', 'ORB'])))
            cms = [rng.choice(sc.ORD.HCM, 2, replace=False), rng.choice(sc.ORD.VCM, 2, replace=False)]
            step(name, lambda: response_matrix(sc, 1e-5, sc.ORD.BPM, cms))
        elif name == 'dispersion':
            mode('ORB')
            step(name, lambda: dispersion(sc, 100.0))
        elif name == 'randnc':
            step(name, lambda: sc_tools.randnc(float(rng.choice([0.5, 1, 2])), tuple(rng.integers(1, 5, int(rng.integers(0, 3))))))
        elif name == 'model':
            step(name, lambda: SCgetModelRM(sc, sc.ORD.BPM, [sc.ORD.HCM[:2], sc.ORD.VCM[:2]], trackMode='ORB'))
        elif name in ('first', 'stitch', 'balance', 'correct'):
            turns = 2 if name in ('stitch', 'balance') else 1
            mode('TBT', turns)
            rm = SCgetModelRM(sc, sc.ORD.BPM, [sc.ORD.HCM, sc.ORD.VCM], trackMode='TBT', nTurns=turns)
            f = dict(first=lambda: orbit_trajectory.first_turn(sc, rm, alpha=10, maxsteps=10), stitch=lambda: orbit_trajectory.stitch(sc, rm, alpha=10, maxsteps=5),
                     balance=lambda: orbit_trajectory.balance(sc, rm, alpha=10, maxsteps=4, eps=1e-5), correct=lambda: orbit_trajectory.correct(sc, rm, alpha=10, maxsteps=4))[name]
            if rng.random() < 0.3:
                for i in rng.choice(gen.ords(sc.RING, 'D3'), 2):
                    sc.RING[i].EApertures = np.array([2e-3, 2e-3])
            step(name, f)
        elif name == 'bba':
            mode('TBT', 2, 1)
            sc.INJ.nParticles = 1
            b, q = rng.choice(sc.ORD.BPM, (2, 1)), rng.choice(o['qf'], (2, 1))
            step(name, lambda: trajectory_bba(sc, b, q, n_steps=4, num_downstream_bpms=5, max_injection_pos_angle=np.array([5e-4, 5e-4])))
        elif name == 'pseudo':
            b, q = np.tile(sc.ORD.BPM[:3], (2, 1)), np.tile(o['qf'][:3], (2, 1))
            step(name, lambda: fake_bba(sc, b, q, fake_offset=np.array([1e-5, 2e-5])))
        elif name == 'frequency':
            mode('TBT', 8)
            step(name, lambda: correct_rf_frequency(sc, f_range=(-500.0, 600.0), n_steps=6))
        elif name == 'phase':
            mode('TBT', 8)
            step(name, lambda: correct_rf_phase(sc, n_steps=6))
        elif name == 'tune':
            mode('TBT', 5)
            vec = [np.linspace(-0.02, 0.02, 3), np.linspace(-0.01, 0.03, 2)]
            step(name, lambda: tune_scan(sc, [o['qf'], o['qd']], vec, nParticles=3, nTurns=3, target=1, full_scan=bool(rng.random() < 0.5)))
        elif name == 'inject':
            mode('TBT', 2)
            step(name, lambda: fit_injection_trajectory(sc, bpm_inds=np.arange(4)))
        elif name == 'drift':
            mode('TBT', 2)
            step(name, lambda: fit_injection_drift(sc))
        elif name == 'loco':
            step(name, lambda: loco.measure_closed_orbit_response_matrix(sc, sc.ORD.BPM, [sc.ORD.HCM[:2], sc.ORD.VCM[:2]]))
        elif name == 'jacobian':
            cms, bpms = [sc.ORD.HCM[:2], sc.ORD.VCM[:2]], sc.ORD.BPM
            step(name, lambda: loco.calculate_jacobian(sc, loco_model(sc, bpms, cms), 1e-5, cms, bpms, o['qf'][:3], 1e-3))
    step('rest', lambda: np.random.random(3))
    return steps


def loco_model(sc, bpms, cms):
    return SCgetModelRM(sc, bpms, cms, dkick=1e-5, useIdealRing=True, trackMode='ORB')


def child(spec_file, out_file):
    with open(spec_file) as f:
        spec = json.load(f)
    pyrandom.seed(spec['other'])
    np.random.seed(spec['other'])
    if spec.get('cpu'):
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[(spec['other'] + k) % len(cpus)] for k in range(spec['cpu'])})
    shift = spec['clock']
    real = time.time
    time.time = lambda: real() + shift
    out = {}
    for p, s in spec['programs']:
        out[f'{p}:{s}'] = program(p, s)
    with open(out_file, 'wb') as f:
        pickle.dump(out, f)


def same(ctx, a, b, what, p):
    ctx.check([x[0] for x in a] == [x[0] for x in b], f'{what}: steps {[x[0] for x in a]} and {[x[0] for x in b]}')
    for k, (x, y) in enumerate(zip(a, b)):
        d = snap.diff(x[1], y[1], rtol=1e-7, atol=1e-12)
        ctx.check(not d, f'{what}: program {p}, step {k} ({x[0]} after {[z[0] for z in a[:k]]}) gives other results: {snap.describe(d)}')
        d = snap.diff(x[2], y[2], rtol=1e-7, atol=1e-12)
        ctx.check(not d, f'{what}: program {p}, step {k} ({x[0]} after {[z[0] for z in a[:k]]}) leaves another machine: {snap.describe(d)}')
        ctx.event(f'step {x[0]}')


def again(ctx):
    """Same process: another program and other disturbances in between."""
    rng = ctx.rng
    p, s = int(rng.integers(2 ** 31)), int(rng.integers(2 ** 31))
    ctx.note(program=p, seed=s)
    first = program(p, s)
    disturb = rng.permutation(['program', 'clock', 'python', 'gc', 'state', 'none'])[:3]
    real = time.time
    try:
        if 'program' in disturb:
            program(int(rng.integers(2 ** 31)), int(rng.integers(2 ** 31)), light=True)
        if 'clock' in disturb:
            time.time = lambda: real() + 1e6
        if 'python' in disturb:
            pyrandom.seed(int(rng.integers(2 ** 31)))
        if 'gc' in disturb:
            gc.collect()
        if 'state' in disturb:
            np.random.standard_normal(int(rng.integers(1, 4)))
        second = program(p, s)
    finally:
        time.time = real
    same(ctx, first, second, f'second run after {list(disturb)}', p)
    ctx.note(steps=[x[0] for x in first])
    ctx.sig(p, s)


def fresh(ctx):
    """Other processes, in another order, after other programs."""
    rng = ctx.rng
    progs = [(int(rng.integers(2 ** 31)), int(rng.integers(2 ** 31))) for _ in range(3)]
    ctx.note(programs=progs)
    ref = {f'{p}:{s}': program(p, s) for p, s in progs}
    with tempfile.TemporaryDirectory() as d:
        for k in range(2):
            spec, out = os.path.join(d, f'spec{k}'), os.path.join(d, f'out{k}')
            order = [progs[i] for i in rng.permutation(len(progs))]
            with open(spec, 'w') as f:
                json.dump(dict(programs=order, other=int(rng.integers(2 ** 31)), clock=float(rng.uniform(-1e7, 1e7)), cpu=int(rng.choice([0, 1, 3]))), f)
            env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 4000000000))), VERIF_REEXEC='1', TZ=str(rng.choice(['UTC', 'Asia/Tokyo'])), PYTHONDONTWRITEBYTECODE='1',
                       VERIF_SOME=str(ctx.idx))
            r = subprocess.run([sys.executable, os.path.abspath(__file__), spec, out], cwd=d, env=env, capture_output=True, text=True, timeout=600)
            if r.returncode != 0:
                if 'MemoryError' in r.stderr or r.returncode < 0:
                    raise Inconclusive(f'child process: {r.returncode} {r.stderr[-300:]}')
                ctx.fail(f'programs which run here fail in a fresh process: {r.stderr[-600:]}')
            with open(out, 'rb') as f:
                got = pickle.load(f)
            for (p, s) in progs:
                same(ctx, ref[f'{p}:{s}'], got[f'{p}:{s}'], 'fresh process', (p, s))
            ctx.event('fresh process')
    ctx.sig(*[p for p, _ in progs])


def drawn(sc):
    """All values with a random part: {(kind, ordinate, field): array of the components with non-zero uncertainty}."""
    out = {}
    for kind, ords in (('BPM', sc.ORD.BPM), ('Magnet', sc.ORD.Magnet), ('RF', sc.ORD.RF), ('Support', list(sc.SIG.Support.keys()))):
        sig = sc.SIG[kind]
        for i in ords:
            for field, val in sig[i].items():
                if 'Noise' in field:
                    continue
                v = np.atleast_1d(np.asarray(val[0] if isinstance(val, list) else val, dtype=float))
                attr = 'BendingAngleError' if field == 'BendingAngle' and kind == 'Magnet' else field
                got = np.atleast_1d(np.asarray(getattr(sc.RING[i], attr), dtype=float))
                got = got[:len(v)] if got.shape != v.shape else got
                out[(kind, int(i), field)] = got[v != 0]
    out[('INJ', 0, 'Z0')] = sc.INJ.Z0[sc.SIG.staticInjectionZ != 0]
    return out


def seeds(ctx):
    """Different seeds, different draws in every random component; no value of one seed is used in another one or twice."""
    rng = ctx.rng
    ring = gen.make_ring(rng, corr_elements=bool(rng.random() < 0.4))
    scs = []
    s0 = int(rng.integers(2 ** 31))
    ss = [s0, s0 + 1, int(rng.integers(2 ** 31))]
    r_seed = int(rng.integers(2 ** 31))
    for s in ss:
        sc = SimulatedCommissioning(at.Lattice([e.deepcopy() for e in ring], energy=ring.energy, periodicity=1))
        r2 = np.random.default_rng(r_seed)
        gen.register_all(sc, r2, circ=True, skew=True)
        np.random.seed(s)
        sc.apply_errors()
        scs.append((drawn(sc), bpm_reading(sc)[0], generate_bunches(sc, 5), sum(e.Length for e in sc.RING)))
    for a in range(3):
        for b in range(a):
            for key, v in scs[a][0].items():
                w = scs[b][0][key]
                ctx.check(v.shape == w.shape and not np.any(v == w), f'{key} is equal with seeds {ss[a]} and {ss[b]}: {v}')
            for k, what in ((1, 'readings'), (2, 'bunches')):
                ctx.check(not np.any(scs[a][k] == scs[b][k]), f'{what} are equal with seeds {ss[a]} and {ss[b]}')
            ctx.check(scs[a][3] != scs[b][3], 'circumference error is equal')
    # repeated applications in one program are different realisations
    sc = SimulatedCommissioning(ring)
    gen.register_all(sc, rng, circ=True)
    sc.apply_errors()
    one = {k: v.copy() for k, v in drawn(sc).items()}
    sc.apply_errors()
    for key, v in drawn(sc).items():
        ctx.check(not np.any(v == one[key]), f'{key} is equal in the second application')
    x, y = bpm_reading(sc)[0], bpm_reading(sc)[0]
    ctx.check(not np.any(x == y), 'two readings with noise are equal')
    ctx.event('random components', sum(v.size for v in one.values()))
    ctx.note(seeds=ss)
    ctx.sig(*ss)


def consumption(ctx):
    """Readings without any noise and models do not use random numbers which others would miss: copies behave like originals."""
    rng = ctx.rng
    sc, o = gen.make_sc(rng)
    sc.INJ.nParticles = int(rng.choice([1, 3]))
    c = sc.very_deep_copy()
    s = int(rng.integers(2 ** 31))
    out = []
    for m in (sc, c):
        np.random.seed(s)
        r2 = np.random.default_rng(s)
        res = []
        for _ in range(int(r2.integers(2, 6))):
            k = int(r2.integers(4))
            if k == 0:
                m.apply_errors()
            elif k == 1:
                gen.random_op(m, o, r2)[1]()
            elif k == 2:
                res.append(bpm_reading(m))
            else:
                res.append(generate_bunches(m))
        out.append((snap.freeze(res), snap.machine(m), np.random.random()))
    d = snap.diff(out[0][0], out[1][0]) + snap.diff(out[0][1], out[1][1])
    ctx.check(not d, f'copy behaves differently: {snap.describe(d)}')
    ctx.check(out[0][2] == out[1][2], 'copy uses other random numbers')
    ctx.sig(ctx.idx, s)


SCENARIOS = dict(again=Scenario(again, 40, 1200), fresh=Scenario(fresh, 8, 120), seeds=Scenario(seeds, 24, 600), consumption=Scenario(consumption, 40, 1000))

if __name__ == '__main__':
    child(sys.argv[1], sys.argv[2])
