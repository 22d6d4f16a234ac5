"""Lattice and machine generators used by every check.

Nothing here looks at pySC internals: rings are built with AT, machines with the public registration API.
"""
import numpy as np

LIGHT = 299792458.0

# (cells, focusing, defocusing): tunes well away from integer and half integer resonances
TUNINGS = [(6, 0.7, 0.77), (7, 0.7, 0.7), (7, 0.9, 0.9), (8, 0.6, 0.6), (8, 0.8, 0.8), (10, 0.7, 0.7),
           (10, 0.9, 0.855), (12, 0.9, 0.855), (12, 0.8, 0.76)]


def make_ring(rng=None, n_cells=None, kf=None, kd=None, corr_elements=False, split_bends=False, cf_bends=False,
              sext=(3.0, -4.0), long_poly=False, apertures=None, rf=True, n_cav=1):
    """A stable periodic ring with supports' end markers, BPMs, quadrupoles, sextupoles, bends and a cavity."""
    import at
    if n_cells is None:
        n_cells, kf, kd = TUNINGS[int(rng.integers(len(TUNINGS)))] if rng is not None else (8, 0.8, 0.8)
    ang = 2 * np.pi / (2 * n_cells)
    bend_pm = 'BndMPoleSymplectic4Pass'
    str_pm = 'StrMPoleSymplectic4Pass'
    npoly = 4 if long_poly else 3

    def pad(lst, n):
        return list(lst) + [0.0] * (n - len(lst))

    def bend(name):
        if split_bends:
            return [at.Dipole(name + 'a', 0.5, ang / 2, 0.0, PassMethod=bend_pm, NumIntSteps=5,
                              PolynomB=np.zeros(2), PolynomA=np.zeros(2)),
                    at.Dipole(name + 'b', 0.5, ang / 2, 0.0, PassMethod=bend_pm, NumIntSteps=5,
                              PolynomB=np.zeros(2), PolynomA=np.zeros(2))]
        k = -0.05 if cf_bends else 0.0
        return [at.Dipole(name, 1.0, ang, k, PassMethod=bend_pm, NumIntSteps=5,
                          PolynomB=np.array([0.0, k]), PolynomA=np.zeros(2))]

    def quad(name, k):
        return at.Quadrupole(name, 0.5, k, PassMethod=str_pm, NumIntSteps=5,
                             PolynomB=np.array(pad([0.0, k], npoly)), PolynomA=np.zeros(npoly))

    def sxt(name, k):
        return at.Sextupole(name, 0.2, k, PassMethod=str_pm, NumIntSteps=5,
                            PolynomB=np.array(pad([0.0, 0.0, k], npoly)), PolynomA=np.zeros(npoly))

    def corr(name):
        return [at.Corrector(name, 0.0, np.zeros(2), PassMethod='CorrectorPass', PolynomB=np.zeros(2),
                             PolynomA=np.zeros(2), MaxOrder=1)] if corr_elements else []

    elems = []
    for _ in range(n_cells):
        elems += [at.Drift('D2', 0.4), at.Marker('SectionStart'), at.Marker('PlinthStart'), at.Marker('GirderStart')]
        elems += [at.Drift('Dx', 0.1)] + bend('BEND')
        elems += [at.Drift('D3', 0.3), sxt('SF', sext[0])] + corr('COR') + [at.Drift('D3', 0.3), at.Marker('GirderEnd'),
                  at.Drift('Dx', 0.1), at.Marker('GirderStart'), at.Monitor('BPM'), quad('QF', kf)]
        elems += [at.Drift('D2', 0.4), at.Drift('D2', 0.4)] + bend('BEND')
        elems += [at.Drift('D3', 0.3), sxt('SD', sext[1]), at.Drift('D3', 0.3), quad('QD', -kd)]
        elems += corr('COR') + [at.Drift('D2', 0.4), at.Marker('BPM'), at.Drift('Dx', 0.1), at.Marker('GirderEnd'),
                  at.Marker('PlinthEnd'), at.Marker('SectionEnd')]
    if rf:
        length = sum(getattr(e, 'Length', 0.0) for e in elems)
        h = max(1, int(round(length * 100e6 / LIGHT)))
        elems.insert(0, at.RFCavity('RFCav', 0.0, 2.0e6, LIGHT * h / length, h, 2.5e9))
        elems[0].TimeLag = 0.0
        elems[0].Voltage /= n_cav
        marks = [i for i, e in enumerate(elems) if e.FamName == 'SectionEnd']
        for k in range(1, n_cav):
            elems.insert(marks[(k * len(marks)) // n_cav] + k, elems[0].deepcopy())
    for e in elems:
        if apertures and not isinstance(e, (at.RFCavity,)):
            e.EApertures = np.array(apertures, dtype=float)
    ring = at.Lattice(elems, name='gen', energy=2.5e9, periodicity=1)
    for e in ring:
        if isinstance(e, at.RFCavity):
            e.PassMethod = 'RFCavityPass'
    return ring


def ords(ring, *names):
    """Indices of elements whose name is one of names, ascending."""
    return np.array([i for i, e in enumerate(ring) if e.FamName in names], dtype=int)


def make_ideal_sc(rng=None, **ring_kw):
    from pySC.core.simulated_commissioning import SimulatedCommissioning
    return SimulatedCommissioning(make_ring(rng, **ring_kw))


def register_all(sc, rng, scale=1.0, bpm=True, mag=True, rf=True, supports=True, inj=True, circ=False, corr=False,
                 cf=False, master=False, skew=True, cm_limit=2e-3, noise=True, rolls=True, bend_hcm=False):
    """Registers a typical machine. Returns a dict of the ordinates used."""
    r = sc.RING
    o = dict(qf=ords(r, 'QF'), qd=ords(r, 'QD'), sf=ords(r, 'SF'), sd=ords(r, 'SD'), bpm=ords(r, 'BPM'),
             cav=ords(r, 'RFCav'), cor=ords(r, 'COR'), bend=ords(r, 'BEND'), benda=ords(r, 'BENDa'),
             bendb=ords(r, 'BENDb'))
    if bpm:
        kw = dict(Offset=scale * 3e-4 * np.ones(2), Roll=scale * 1e-2, CalError=scale * 0.03 * np.ones(2))
        if noise:
            kw.update(Noise=scale * 2e-6 * np.ones(2), NoiseCO=scale * 1e-7 * np.ones(2), SumError=scale * 0.05)
        if not rolls:
            kw.pop('Roll')
        sc.register_bpms(o['bpm'], **kw)
    else:
        sc.register_bpms(o['bpm'])
    align = dict(MagnetOffset=scale * np.array([4e-5, 4e-5, 1e-5]), MagnetRoll=scale * np.array([1e-4, 0, 0])) if mag else {}
    npoly = len(r[o['qf'][0]].PolynomB)
    cal = np.zeros(npoly)
    cal[1] = 1e-3
    cal3 = np.zeros(npoly)
    cal3[2] = 1e-3
    qkw = dict(CalErrorB=scale * cal, **align) if mag else {}
    skw = dict(CalErrorB=scale * cal3, **align) if mag else {}
    if len(o['cor']):
        ckw = dict(CalErrorA=scale * 2e-2 * np.ones(2), CalErrorB=scale * 2e-2 * np.ones(2)) if mag else {}
        sc.register_magnets(o['cor'], HCM=cm_limit, VCM=cm_limit, **ckw)
        sc.register_magnets(o['qf'], **qkw)
        sc.register_magnets(o['qd'], **qkw)
    else:
        sc.register_magnets(o['qf'], HCM=cm_limit, VCM=cm_limit, **qkw)
        sc.register_magnets(o['qd'], HCM=cm_limit, VCM=cm_limit, **qkw)
    if skew:
        sc.register_magnets(o['sf'], SkewQuad=0.1, **skw)
    else:
        sc.register_magnets(o['sf'], **skw)
    sc.register_magnets(o['sd'], **skw)
    bkw = dict(BendingAngle=scale * 1e-4, **align) if mag else {}
    if len(o['bend']):
        if cf:
            bkw['CF'] = 1
        if bend_hcm:
            bkw['HCM'] = cm_limit
        sc.register_magnets(o['bend'], **bkw)
    if len(o['benda']):
        if master:
            sc.register_magnets(o['benda'], MasterOf=o['bendb'].reshape(1, -1), **bkw)
        else:
            sc.register_magnets(np.concatenate((o['benda'], o['bendb'])), **bkw)
    if len(o['cav']):
        kw = dict(FrequencyOffset=scale * 1e2, VoltageOffset=scale * 5e3, TimeLagOffset=scale * 1e-2) if rf else {}
        sc.register_cavities(o['cav'], **kw)
    if supports:
        for typ in ('Girder', 'Plinth', 'Section'):
            pair = np.vstack((ords(r, typ + 'Start'), ords(r, typ + 'End')))
            sc.register_supports(pair, typ, Offset=scale * 3e-5 * np.ones(3), Roll=scale * np.array([5e-5, 0, 0]))
            o[typ] = pair
    if inj:
        sc.SIG.randomInjectionZ = scale * np.array([1e-5, 1e-6, 1e-5, 1e-6, 1e-5, 1e-5])
        sc.SIG.staticInjectionZ = scale * np.array([1e-4, 1e-5, 1e-4, 1e-5, 1e-4, 1e-4])
        sc.INJ.beamSize = np.diag((scale * np.array([1e-4, 1e-5, 1e-4, 1e-5, 1e-4, 1e-5]) + 1e-9) ** 2)
    if circ:
        sc.SIG.Circumference = scale * 1e-6
    return o


def make_sc(rng, ring_kw=None, apply=True, **reg):
    """A registered machine (errors applied unless apply=False) and its ordinates."""
    sc = make_ideal_sc(rng, **(ring_kw or {}))
    o = register_all(sc, rng, **reg)
    if apply:
        sc.apply_errors()
    return sc, o


def random_op(sc, o, rng):
    """One random legal machine operation; returns (name, thunk)."""
    quads = np.concatenate((o['qf'], o['qd']))
    cms = sc.ORD.HCM
    k = int(rng.integers(8))

    def pick(arr):
        n = int(rng.integers(1, min(4, len(arr)) + 1))
        return rng.choice(arr, n, replace=False)
    if k == 0:
        q = pick(quads)
        return 'quad rel', lambda: sc.set_magnet_setpoints(q, 1 + 1e-3 * rng.standard_normal(len(q)), False, 1, 'rel')
    if k == 1:
        q = pick(quads)
        return 'quad add', lambda: sc.set_magnet_setpoints(q, 1e-3 * rng.standard_normal(), False, 1, 'add')
    if k == 2 and len(cms):
        c = pick(cms)
        return 'hcm add', lambda: sc.set_cm_setpoints(c, 1e-5 * rng.standard_normal(len(c)), False, 'add')
    if k == 3 and len(sc.ORD.VCM):
        c = pick(sc.ORD.VCM)
        return 'vcm abs', lambda: sc.set_cm_setpoints(c, 1e-5 * rng.standard_normal(len(c)), True, 'abs')
    if k == 4 and len(sc.ORD.RF):
        return 'rf freq', lambda: sc.set_cavity_setpoints(sc.ORD.RF, 50 * rng.standard_normal(), 'Frequency', 'add')
    if k == 5 and len(sc.ORD.SkewQuad):
        q = pick(sc.ORD.SkewQuad)
        return 'skew', lambda: sc.set_magnet_setpoints(q, 1e-3 * rng.standard_normal(len(q)), True, 1, 'abs')
    if k == 6:
        s = pick(np.concatenate((o['sf'], o['sd'])))
        return 'sext rel', lambda: sc.set_magnet_setpoints(s, 1.001, False, 2, 'rel')
    return 'apply', lambda: sc.apply_errors()


def mini_line(rng):
    """A short line with every magnet kind and random multipole array lengths. Returns (ring, kinds: index -> kind)."""
    import at
    elems, kinds = [], {}

    def add(e, kind=None):
        if kind:
            kinds[len(elems)] = kind
        elems.append(e)
        elems.append(at.Drift('D', float(rng.uniform(0.1, 1.0))))

    def arr(n, **vals):
        a = np.zeros(n)
        for k, v in vals.items():
            a[int(k[1:])] = v
        return a

    for i in range(int(rng.integers(1, 4))):
        cav = at.RFCavity('CAV', 0.0, float(rng.uniform(1e5, 1e6)), float(rng.uniform(1e8, 5e8)), 100, 2.5e9)
        cav.TimeLag = float(rng.choice([0.0, 0.1]))
        add(cav, None)
    for i in range(int(rng.integers(1, 3))):
        n = int(rng.integers(2, 5))
        k = float(rng.choice([-1, 1]) * rng.uniform(0.1, 1.0))
        add(at.Dipole(f'CF{i}', float(rng.uniform(0.5, 2)), float(rng.uniform(0.02, 0.4)), k,
                      PassMethod='BndMPoleSymplectic4Pass', PolynomB=arr(n, _1=k), PolynomA=np.zeros(n)), 'cf')
    for i in range(int(rng.integers(1, 3))):
        n = int(rng.integers(2, 5))
        add(at.Dipole(f'BD{i}', float(rng.uniform(0.5, 2)), float(rng.uniform(0.02, 0.4)), 0.0,
                      PassMethod='BndMPoleSymplectic4Pass', PolynomB=np.zeros(n), PolynomA=np.zeros(n)), 'bend')
    for i in range(2):
        n = int(rng.integers(2, 5))
        nparts = int(rng.integers(2, 4))
        k = float(rng.uniform(-1, 1))
        base = len(elems)
        for p in range(nparts):
            add(at.Dipole(f'SP{i}{p}', float(rng.uniform(0.2, 1)), float(rng.uniform(0.02, 0.2)), k,
                          PassMethod='BndMPoleSymplectic4Pass', PolynomB=arr(n, _1=k), PolynomA=np.zeros(n)),
                'master' if p == 0 else f'child{base}')
    for i in range(int(rng.integers(1, 4))):
        n = int(rng.integers(2, 6))
        add(at.Quadrupole(f'Q{i}', float(rng.uniform(0.2, 1)), 0.1, PassMethod='StrMPoleSymplectic4Pass',
                          PolynomB=arr(n, _1=float(rng.uniform(-2, 2))), PolynomA=np.zeros(n)), 'quad')
    for i in range(int(rng.integers(1, 3))):
        n = int(rng.integers(3, 6))
        pb = arr(n, _2=float(rng.uniform(-20, 20)))
        if rng.random() < 0.3:
            pb[1] = 0.05
        add(at.Sextupole(f'S{i}', float(rng.uniform(0.1, 0.4)), 0.1, PassMethod='StrMPoleSymplectic4Pass',
                         PolynomB=pb, PolynomA=arr(n, _1=0.01 * float(rng.random()))), 'sext')
    for i in range(int(rng.integers(1, 3))):
        n = int(rng.integers(1, 4))
        add(at.Corrector(f'C{i}', 0.0, np.zeros(2), PassMethod='CorrectorPass', PolynomB=np.zeros(n),
                         PolynomA=np.zeros(n), MaxOrder=n - 1), 'corr')
    for i in range(2):
        add(at.Monitor(f'BPM{i}'), None)
    elems.append(at.Drift('L', 20.0))
    ring = at.Lattice(elems, name='mini', energy=2.5e9, periodicity=1)
    return ring, kinds
