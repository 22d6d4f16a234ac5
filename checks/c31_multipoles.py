"""C31: multipole tables assigned in random sequences to random lines; the fields excited afterwards are compared with a shadow record of the tables, the random parts with the documented distribution, files with what was written."""
import os
import tempfile
import numpy as np
import at
from scipy.stats import kstest, truncnorm
from vlib import gen, snap
from vlib.common import LogCapture, Scenario
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.utils import sc_tools

PID = 'C31'
RULE = ('tables of one to nine rows with zero, tiny, equal and large entries, every excited order and type, subsets of magnets, repeated, overlapping and mixed systematic and random '
        'assignments, excitations changed in between. Distinct by table and assignment history.')
ASSUMPTIONS = ['tables are arrays whose columns are the normal and the skew component; the excited order lies within the table and within the setpoints of the magnet']


def field(e):
    n = max(len(e.PolynomA), len(e.PolynomB), 12)
    out = np.zeros((n, 2))
    out[:len(e.PolynomB), 0] = e.PolynomB
    out[:len(e.PolynomA), 1] = e.PolynomA
    return out


def padded(tab, n=12):
    out = np.zeros((n, 2))
    out[:len(tab)] = tab
    return out


def table(rng, n):
    tab = rng.normal(size=(n, 2)) * 10.0 ** rng.integers(-6, 0, (n, 2))
    tab[rng.random((n, 2)) < 0.25] = 0.0
    if rng.random() < 0.2:
        tab[:] = np.asarray(rng.integers(0, 3, (n, 2)), dtype=float)
    return tab


def machine(ctx):
    """A line of magnets without bending; each can be excited in each component."""
    rng = ctx.rng
    elems = []
    for i in range(int(rng.integers(2, 7))):
        n = int(rng.integers(1, 5))
        pb, pa = rng.normal(size=n) * (rng.random(n) < 0.6), rng.normal(size=n) * (rng.random(n) < 0.3)
        e = at.Multipole(f'M{i}', float(rng.uniform(0.1, 1)), pa, pb, PassMethod='StrMPoleSymplectic4Pass', MaxOrder=n - 1)
        elems += [e, at.Drift('D', 1.0)]
    elems.append(at.Drift('L', 30.0))
    sc = SimulatedCommissioning(at.Lattice(elems, name='line', energy=2.5e9, periodicity=1))
    mags = np.arange(0, len(elems) - 1, 2)
    for i in mags:
        n = len(sc.RING[i].PolynomB)
        kw = dict(CalErrorB=0.01 * np.ones(n), CalErrorA=0.02 * np.ones(n)) if rng.random() < 0.5 else {}
        sc.register_magnets(np.array([i]), **kw)
    sc.apply_errors()
    return sc, mags


def excitation(e):
    return np.column_stack((e.SetPointB * (1 + e.CalErrorB), e.SetPointA * (1 + e.CalErrorA)))


def systematic(ctx):
    rng = ctx.rng
    sc, mags = machine(ctx)
    tables = {int(i): {} for i in mags}
    offs = {int(i): np.zeros((12, 2)) for i in mags}
    history = []
    ideal = snap.ring(sc.IDEALRING)

    for step in range(int(rng.integers(2, 8))):
        sel = np.sort(rng.choice(mags, int(rng.integers(1, len(mags) + 1)), replace=False))
        if rng.random() < 0.3:
            rng.shuffle(sel)
        k = rng.random()
        if k < 0.55:
            n_min = min(len(sc.RING[i].SetPointB) for i in sel)
            order, skew = int(rng.integers(0, n_min)), bool(rng.random() < 0.5)
            tab = table(rng, int(rng.integers(order + 1, order + 6)))
            if rng.random() < 0.7:
                tab[order, int(skew)] = 1.0
            if rng.random() < 0.3:
                tab = np.asfortranarray(tab)
            keep = tab.copy()
            sc.set_systematic_multipole_errors(list(sel) if rng.random() < 0.3 else sel, tab, order, skew)
            ctx.check(np.array_equal(tab, keep), 'the table was changed')
            own = tab.copy()
            own[order, int(skew)] = 0.0
            for i in sel:
                tables[i][(int(skew), order)] = own
            tab[:] = 99.0
            history.append(('systematic', order, skew, len(tab), len(sel)))
        elif k < 0.75:
            tab = np.abs(table(rng, int(rng.integers(1, 8))))
            keep = tab.copy()
            before = {int(i): padded(field(sc.RING[i])) for i in mags}
            scale = {int(i): np.abs(before[int(i)]) for i in mags}
            sc.set_random_multipole_errors(sel, tab)
            ctx.check(np.array_equal(tab, keep), 'the table was changed')
            sc.update_magnets()
            drawn = []
            for i in mags:
                d = padded(field(sc.RING[i])) - before[i]
                if i in sel:
                    tol = 4e-16 * (scale[i] + 2 * padded(keep)) * 4
                    ctx.check(np.all(np.abs(d) <= 2 * padded(keep) + tol), f'random multipoles of magnet {i} beyond two sigma')
                    ctx.check(np.all((padded(keep) > 1e-9) <= (d != 0)), f'random multipoles of magnet {i} missing')
                    offs[i] = offs[i] + d
                    drawn.append(d)
                else:
                    ctx.check(not d.any(), f'random multipoles changed magnet {i}')
            tab[:] = 99.0
            history.append(('random', len(tab), len(sel)))
        else:
            i = int(rng.choice(mags))
            order, skew = int(rng.integers(len(sc.RING[i].SetPointB))), bool(rng.random() < 0.5)
            sc.set_magnet_setpoints(i, float(rng.normal()), skew, order, 'abs')
            history.append(('excite', i, order, skew))
        sc.update_magnets()
        # offsets are differences of sums: compare them to the precision of those sums
        judge(ctx, sc, mags, tables, offs, history)
    d = snap.diff(snap.ring(sc.IDEALRING), ideal)
    ctx.check(not d, f'design lattice: {snap.describe(d)}')
    # each excitation separately
    for i in mags:
        for order in range(len(sc.RING[i].SetPointB)):
            for skew in (False, True):
                sc.set_magnet_setpoints(int(i), 0.0, skew, order, 'abs')
    judge(ctx, sc, mags, tables, offs, history + ['all off'])
    for i in mags:
        for (src, order) in list(tables[i]):
            sc.set_magnet_setpoints(int(i), 1.5, bool(src), order, 'abs')
            judge(ctx, sc, mags, tables, offs, history + [('only', i, order, src)])
            sc.set_magnet_setpoints(int(i), 0.0, bool(src), order, 'abs')
            ctx.event('component excited alone')
    ctx.note(history=history)
    ctx.sig(history, ctx.idx)


def judge(ctx, sc, mags, tables, offs, history):
    for i in mags:
        exc = excitation(sc.RING[i])
        want = padded(exc) + offs[i]
        size = np.abs(want) + np.abs(offs[i]) + 10.0
        for (src, order), tab in tables[i].items():
            term = exc[order, src] * padded(tab)
            want, size = want + term, size + np.abs(term)
        got = padded(field(sc.RING[i]))
        bad = np.abs(got - want) > 1e-14 * size
        ctx.check(not bad.any(), f'field of magnet {i}, (order, type) {np.argwhere(bad).tolist()}: {got[bad].tolist()} instead of {want[bad].tolist()} after {history}')


def random(ctx):
    """Distribution over many magnets; repeated assignments add up."""
    rng = ctx.rng
    n_mag = 250
    elems = []
    for i in range(n_mag):
        elems.append(at.Quadrupole('Q', 0.1, 0.0, PassMethod='StrMPoleSymplectic4Pass', PolynomB=np.zeros(2), PolynomA=np.zeros(2)))
    sc = SimulatedCommissioning(at.Lattice(elems, name='line', energy=2.5e9, periodicity=1))
    mags = np.arange(n_mag)
    sc.register_magnets(mags)
    sel = mags if rng.random() < 0.5 else np.sort(rng.choice(mags, 200, replace=False))
    last = np.zeros((n_mag, 12, 2))
    rounds = int(rng.integers(1, 4))
    for r in range(rounds):
        n = int(rng.integers(1, 7))
        tab = 10.0 ** rng.uniform(-4, 0, (n, 2)) * (rng.random((n, 2)) < 0.8)
        if rng.random() < 0.3:
            tab *= np.array([1.0, 0.0])
        sc.set_random_multipole_errors(sel, tab)
        sc.update_magnets()
        now = np.array([padded(field(e)) for e in sc.RING])
        d = now - last
        last = now
        ctx.check(not d[np.setdiff1d(mags, sel)].any(), 'magnets outside the selection changed')
        used = padded(tab) > 0
        ctx.check(not d[:, ~used].any(), 'components without width are not zero')
        z = d[sel][:, used] / padded(tab)[used]
        if not z.size:
            continue
        ctx.check(np.all(np.abs(z) <= 2 * (1 + 1e-9) + (1e-10 if r else 0)), f'beyond two sigma: {np.abs(z).max()}')
        p = kstest(z.ravel(), truncnorm(-2, 2).cdf).pvalue
        ctx.check(p > 1e-10, f'not the truncated normal distribution: p={p}, std={z.std()}')
        sd = truncnorm(-2, 2).std()
        m = len(sel)
        ctx.check(np.all(np.abs(z.mean(axis=0)) < 7 * sd / np.sqrt(m)), f'mean per component {z.mean(axis=0)}')
        ctx.check(np.all(np.abs(z.std(axis=0) / sd - 1) < 7 * 0.5 / np.sqrt(m)), f'width per component {z.std(axis=0)}')
        if z.shape[1] > 1:
            c = np.corrcoef(z.T) - np.eye(z.shape[1])
            ctx.check(np.all(np.abs(c) < 7 / np.sqrt(m)), f'components are correlated {np.abs(c).max()}')
        for lag in (1, 2):
            c = np.mean(z[lag:] * z[:-lag], axis=0) / sd ** 2
            ctx.check(np.all(np.abs(c) < 7 / np.sqrt(m - lag)), f'magnets are correlated {c}')
        if r == 0:
            ctx.check(len(np.unique(z)) == z.size, 'values used twice')
        ctx.event('random components', z.size)
    ctx.note(rounds=rounds)
    ctx.sig(rounds, ctx.idx)


def rejected(ctx):
    rng = ctx.rng
    sc, mags = machine(ctx)
    before = snap.machine(sc)
    n = int(rng.integers(1, 6))
    bad = [rng.normal(size=n), rng.normal(size=(n, 1)), rng.normal(size=(n, 3)), rng.normal(size=(2, n, 2)), np.array(1.0), rng.normal(size=(2, 5))][ctx.idx % 6]
    ctx.raises(ValueError, lambda: sc.set_random_multipole_errors(mags, bad), f'random table {bad.shape}')
    ctx.raises(ValueError, lambda: sc.set_systematic_multipole_errors(mags, bad, 0, bool(rng.random() < 0.5)), f'systematic table {bad.shape}')
    d = snap.diff(snap.machine(sc), before)
    ctx.check(not d, f'rejected table changed {snap.describe(d)}')
    ctx.note(shape=bad.shape)
    ctx.sig(bad.shape, ctx.idx)


def files(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 12))
    tab = np.column_stack((np.arange(1, n + 1), rng.normal(size=(n, 2)) * 10.0 ** rng.integers(-9, 1, (n, 2))))
    tab[:, 1:][rng.random((n, 2)) < 0.3] = 0.0
    order, typ = int(rng.integers(n)), int(rng.integers(2))
    case = ['normal', 'normal', 'normal', 'none', 'two', 'size'][ctx.idx % 6]
    tab[:, 1:][tab[:, 1:] == 1] = 0.5
    if case in ('normal', 'size'):
        tab[order, 1 + typ] = 1.0
    elif case == 'two':
        tab[:, 1:][order, typ] = 1.0
        k = [x for x in range(2 * n) if x != 2 * order + typ][int(rng.integers(2 * n - 1))]
        tab[k // 2, 1 + k % 2] = 1.0
    fmts = [lambda v: f'{v!r}', lambda v: f'{v:.17e}', lambda v: f'{v:+.17E}']
    fmt = fmts[int(rng.integers(3))]
    sep = str(rng.choice(['\t', ' ', '   ', '\t ']))
    eol = str(rng.choice(['\n', '\n\n', ' \n', '\r\n']))
    text = eol.join(sep.join((str(int(r[0])), fmt(float(r[1])), fmt(float(r[2])))) for r in tab) + str(rng.choice(['', '\n', '\n\n']))
    if case == 'size':
        text = text.rstrip() + sep + '0.25' * int(rng.integers(1, 2))
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'table.txt')
        with open(f, 'w', newline='') as h:
            h.write(text)
        with LogCapture() as log:
            got = sc_tools.read_multipoles(f)
        with open(f, newline='') as h:
            ctx.check(h.read() == text, 'the file was changed')
    if case == 'size':
        ctx.check(got is None and log.messages('ERROR'), 'incomplete file is not reported')
    else:
        BA, o, t = got
        ctx.check(BA.shape == (n, 2) and np.array_equal(BA[:, 1], tab[:, 1]) and np.array_equal(BA[:, 0], tab[:, 2]), f'table {BA.tolist()} instead of columns (normal, skew) of {tab.tolist()}')
        if case == 'normal':
            ctx.check((o, t) == (order, typ) and not log.messages('WARNING'), f'nominal component {(o, t)} instead of {(order, typ)}')
            # into a machine: the written columns, scaled with the excitation, without the nominal one
            pb = np.zeros(n + 1)
            e = at.Multipole('M', 0.5, np.zeros(n), np.zeros(n), PassMethod='StrMPoleSymplectic4Pass', MaxOrder=n - 1)
            sc = SimulatedCommissioning(at.Lattice([e, at.Drift('D', 10.0)], name='l', energy=2.5e9, periodicity=1))
            sc.register_magnets(np.array([0]))
            sc.set_systematic_multipole_errors(np.array([0]), BA, int(o), t == 0)
            exc = float(rng.normal())
            sc.set_magnet_setpoints(0, exc, t == 0, int(o), 'abs')
            ctx.close(sc.RING[0].PolynomA[:n], exc * tab[:, 1], 'skew field of the file', rtol=1e-13)
            ctx.close(sc.RING[0].PolynomB[:n], exc * tab[:, 2], 'normal field of the file', rtol=1e-13)
        else:
            ctx.check((o, t) == (0, 0) and log.messages('WARNING'), f'ambiguous file gives {(o, t)} and {log.records}')
    ctx.note(case=case, rows=n)
    ctx.sig(case, n, order, typ, ctx.idx)


SCENARIOS = dict(systematic=Scenario(systematic, 3000, 60000), random=Scenario(random, 48, 1500), rejected=Scenario(rejected, 48, 1200), files=Scenario(files, 800, 20000))
