#!/usr/bin/env python3
"""Writes DESIGN.md from the fixed text below, properties.jsonl, the check modules and the planted changes in seeded/."""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = '''# How the properties of pySC are decided here

## The technique and what it applies to

Every property is decided by runtime monitoring: `check.py <id>` runs the real, unmodified code of /repo's working tree under generated
workloads, and oracles written independently of that code judge what was observed. pySC is a single-threaded pure-Python library whose
results are numbers and object state, so "instrumentation" here means:

* **full-state snapshots** (`vlib/snap.py`): every attribute of every element of the machine and of its design lattice, injection settings,
  registrations, uncertainties, plots and array identities, before and after each call; a difference that the property does not
  predict is a violation. This is what makes "and nothing else changes" decidable.
* **event logs through the public shot hook**: `SC.INJ.postFun` is called by pySC for every injected bunch. The checks put a recorder there
  (which returns the bunch unchanged, or injects faults: lost shots, drifts, noise seeds). Feedback, tune scans, alignment, RF correction and
  response measurements become a sequence of (shot number, machine settings, bunch) events that are replayed on independent copies.
* **reference models and independent computations**: setpoint and field models, rigid-beam support geometry, three-dimensional ray geometry
  for misaligned magnets, re-tracking with the accelerator toolbox (AT) of the very particles the machine used, exact least squares,
  explicit-loop statistics.
* **distribution monitors**: pooled normalised draws, tested for support, mean, variance, truncation and independence with limits of six or
  seven standard errors (false alarm rate below 1e-8 per test), always from fixed seeds.
* **log records** (warnings are part of the documented outcome of verification and feedback) and **exceptions**.

Nothing in pySC is hooked, so there is no guarded instrumentation in /repo (MANIFEST `hooks` is empty) and the checks do not depend on
private names, call order inside functions or source text. The only names used are documented functions, attributes and the hooks of the
interface. Where plots are drawn, `plt.pause` and windows are replaced by the Agg back end.

**Sanitizers and race detectors**: not applicable. The repository has no native code (the compiled tracking engine belongs to AT, which is
prebuilt and not part of it), no threads, and two places using processes (`use_mp` tracking and the parallel Jacobian), whose results are
compared with the serial ones (C12, C26, C29).

**What is not covered by a property**, because the code is an unfinished port that cannot work at the pinned commit (recorded, not monitored
except where noted): `atloco`, `twissline` (both raise NotImplementedError), and `loco_fit_parameters` (a known finding of C26). The example script is covered by the existing tests. Cosmetics of plots are not judged (only
that valid plots succeed and leave the machine alone), nor the wording of messages.

## Workloads

`vlib/gen.py` builds lines with every kind of magnet and full rings of 2-8 cells with quadrupoles, sextupoles, plain / split /
combined-function bends, thin correctors or correctors in magnets, skew quadrupoles, cavities, apertures, three stacked
support types and all error types; sizes, strengths, registrations, error widths, orders of calls, value types (int, float, list,
array, column, empty), subsets and repetitions are random. Checks add hostile ingredients of their own: readings
without beam, shots lost in the middle of a procedure, correctors at their limits, singular matrices, supports crossing the end of the lattice,
elements given twice as the same object, malformed requests.

Case *i* of scenario *s* of property *P* is a pure function of (P, s, i, seed, tier): a violation prints a replay file, and
`check.py P --replay FILE` executes exactly this case again. Cases are distributed over 8 worker processes. A case which is not
applicable (for example a ring that is unstable with the drawn strengths) counts as nothing and is reported as skipped; a scenario in which the monitors
saw nothing makes the check fail with exit code 2 rather than pass. Evidence files contain, per scenario, the number of cases, of
non-trivial ones, of comparisons made, the named events counted by the monitors, distinct signatures and sample cases.

An exception raised inside pySC by a valid request is a violation; an exception in the harness itself is "no answer" (exit 2). More than 240 s
of CPU time in one case (which normally takes well below 1 s) is reported as a violation (no result).

Tolerances: exact comparison wherever nothing is recomputed (snapshots, what is restored, what is copied); relative 1e-9..1e-13 where
the same quantity is computed in another order; documented physical tolerances otherwise, listed per property. Refactorings which change
rounding or the order of independent statements have to stay below these.

## Known findings and repairs

`known_findings.txt` lists {nfix} repaired defects (each is one `fix:` commit in /repo) and two that are recorded only:
`calculate_jacobian` with `useIdealRing=True` (all magnet rows vanish, because the stepped ring is not the one whose response is computed; the repair would
need another interface) and `loco_fit_parameters` (an unfinished port).
Candidates that were examined and rejected as defects (the code is within its documentation, or the documentation is silent):
accumulation of the circumference error over applications (documented as scaling of the present ring; C07 and C22 state it so), model response without error for an unknown
tracking mode, the "setback" of `stitch` that is reported as warning only, ignored `bounds` in the Levenberg-Marquardt method, the reproducibility criteria
of the feedback loops, `is_bba_errored` for invalid errors, equally spaced selection of two elements.

False alarms met while building, and what was changed: transmission exactly at the loss threshold is judged only for exactly representable
thresholds; several cavities with different time lags, for which AT finds no orbit, are skipped; decisions of feedback and RF corrections within a small
distance of a documented threshold are not judged; a pair visited twice by the tune scan may be reported from either visit; thick-magnet beam-based
alignment has a 20 um allowance; corrector setpoints restored by a measurement are compared up to rounding (1e-12), not bitwise.

'''

WHY = {
    'C01': ('field law', 'tests set one magnet once; here any sequence of errors, tables, setpoints and updates on all magnet kinds is followed by an independent model, and stale or doubly applied contributions show up after the second or third step'),
    'C02': ('reference model + full-state difference', 'tests look at the component they set; the monitor sees every other component of every element and the caller\'s arrays'),
    'C03': ('tracked deflection, clipping model', 'sign and scale conventions differ for six magnet kinds and two planes, and clipping depends on the history'),
    'C04': ('cavity law + tracked energy gain', 'several cavities with different errors, and parameters changed one at a time'),
    'C05': ('compensation model + geometric deflection', 'successive, mixed and clipped changes; magnets for which compensation must not happen'),
    'C06': ('registry model', 'order, repetition and mixture of registrations, overwritten and partial uncertainties, rejected calls that must leave no trace'),
    'C07': ('bounds, moments, replacement', 'statistical guarantee over all fields and cut-offs; replacement is a two-run property'),
    'C08': ('rigid-beam geometry', 'stacks of three support types, shared boundaries, wrapping supports: a test samples one girder'),
    'C09': ('ray geometry + displaced-frame tracking', 'six degrees of freedom combined, bends, supports, histories'),
    'C10': ('re-tracking of recorded bunches + error model', 'modes x shots x turns x particles x loss patterns x subsets'),
    'C11': ('moments and principal-axis bounds', 'coupled, singular and unequal covariance matrices'),
    'C12': ('serial re-tracking', 'losses at different places and turns, thresholds, pool'),
    'C13': ('memory-overlap monitor', 'aliasing shows only when a second object is modified later; np.shares_memory over all arrays sees it at once'),
    'C14': ('full-state comparison around every observer', 'including failing calls, without beam, and every plotting function'),
    'C15': ('readings on independent copies', 'limits, initial settings and lost beam change what a "step" is'),
    'C16': ('independent construction + finite differences in AT', 'all combinations of reference ring, tracking mode, options'),
    'C17': ('shot log replay', 'a feedback run is a history: each step is re-derived from the readings that preceded it'),
    'C18': ('geometric oracle + fault injection', 'all error sources at once; the true answer is known only to an observer outside the procedure'),
    'C19': ('independent measurements on copies', 'significance decisions and signs for random phases, energies and noise'),
    'C20': ('visit log + re-tracking', 'the order of visits, early stop and best pair are histories'),
    'C21': ('matrices with known spectrum', 'all shapes, ranks and options combined'),
    'C22': ('element-by-element comparison', 'sequences of scalings on rings with all element kinds'),
    'C23': ('state machine per element', 'sequences of switches'),
    'C24': ('explicit loops', 'all axes, masks, weights; degenerate cells'),
    'C25': ('differential: two identical machines, same seed', 'each wrapper with random options, including failing calls'),
    'C26': ('finite differences, exact least squares, closed loop', 'random groups, weights, masks; parallel and serial'),
    'C27': ('results on freshly built copies', 'hidden state appears only in histories with interleaved other calls'),
    'C28': ('known injection + separate fit', 'subsets, lost beam, references, drift variant'),
    'C29': ('same seed, different context', 'other processes, other programs before, other hash seeds'),
    'C30': ('planted defects in the machine under verification', 'each documented warning and error, alone and combined, at random elements'),
    'C32': ('independent tracking on both sides of the border', 'every lattice, direction and start interval has another border'),
    'C33': ('shot log of all error fields', 'the intermediate states exist only while the procedure runs; restarts are histories'),
    'C34': ('curves read back from the figures', 'every subset, order, range and mode draws other data'),
    'C31': ('shadow record of the tables, distribution of draws, generated files', 'sequences of assignments and all orders and types'),
}


def scenarios(path):
    t = ast.parse(open(path).read())
    doc = {n.name: (ast.get_docstring(n) or '').split('\n')[0] for n in t.body if isinstance(n, ast.FunctionDef)}
    out, val = [], {}
    for n in t.body:
        if not isinstance(n, ast.Assign):
            continue
        name = getattr(n.targets[0], 'id', '')
        if name == 'SCENARIOS':
            for k in n.value.keywords:
                a = k.value.args
                out.append((k.arg, doc.get(ast.unparse(a[0]), ''), ast.unparse(a[1]), ast.unparse(a[2])))
        elif name in ('RULE', 'ASSUMPTIONS'):
            val[name] = ast.literal_eval(n.value)
    head = ast.get_docstring(t) or ''
    return head.split(':', 1)[1].strip(), out, val


def main():
    props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
    nfix = sum(x.startswith('fixed:') for x in open(os.path.join(V, 'known_findings.txt')))
    cost = json.load(open(os.path.join(V, 'tools', 'costs.json')))
    catch = json.load(open(os.path.join(V, 'tools', 'caught.json')))
    out = [HEAD.replace('{nfix}', str(nfix)), '## Properties\n']
    for p in props:
        pid = p['id']
        path = glob.glob(os.path.join(V, 'checks', pid.lower() + '_*.py'))[0]
        tech, sc, val = scenarios(path)
        c = cost.get(pid, {})
        out.append(f'### {pid} {p["title"]}\n')
        out.append(f'*Monitor* ({WHY[pid][0]}): {tech} *Beyond tests*: {WHY[pid][1]}.\n')
        out.append(f'*Workload and bounds*: {val["RULE"]}\n')
        out.append('*Scenarios* (quick / thorough cases): ' + '; '.join(
            f'`{n}` {q}/{t}' + (f' ({d.rstrip(".")})' if d else '') for n, d, q, t in sc) + '.\n')
        if val.get('ASSUMPTIONS'):
            out.append('*Not judged / assumed*: ' + '; '.join(val['ASSUMPTIONS']) + '.\n')
        out.append(f'*Cost* (8 cores): quick {c.get("quick", "?")} s, thorough {c.get("thorough", "at most 600")} s.\n')
    out.append('## Planted changes and which checks catch them\n')
    out.append('Each was written from the property text and the code, keeps the existing tests passing and has a demonstration; "missed first" means the check '
               'had to be strengthened for it.\n')
    out.append('| change | property | what it breaks | needs | caught by | note |\n|---|---|---|---|---|---|')
    for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
        m, n = json.load(open(d)), os.path.basename(os.path.dirname(d))
        k = catch.get(n, {})
        out.append(f'| {n} | {m["property"]} | {m["what_it_breaks"]} | {m["needs"]} | {", ".join(k.get("by", [])) or "-"} | {k.get("note", "")} |')
    out.append('')
    tail = os.path.join(V, 'tools', 'design_tail.md')
    if os.path.exists(tail):
        out.append(open(tail).read())
    with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


if __name__ == '__main__':
    main()
