"""Runner shared by every check: environment, case scheduling, violation and evidence bookkeeping.

A check module (checks/cNN_*.py) defines
    PID, RULE, ASSUMPTIONS, SCENARIOS = {name: Scenario(func, quick, thorough)}
where func(ctx) executes ONE generated case against the real pySC code in /repo and judges it with ctx.* oracles.
"""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')


def ensure_env():
    """Re-executes under the repository's interpreter with a deterministic environment."""
    want = dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1',
                OMP_NUM_THREADS='1', MKL_NUM_THREADS='1')
    same = all(os.environ.get(k) == v for k, v in want.items())
    if same and os.path.realpath(sys.prefix) == os.path.realpath(os.path.dirname(os.path.dirname(PY))):
        return
    if os.environ.get('VERIF_REEXEC') == '1':
        return
    os.environ.update(want)
    os.environ['VERIF_REEXEC'] = '1'
    os.execv(PY, [PY] + sys.argv)


ensure_env()

import atexit
import copy
import hashlib
import json
import logging
import shutil
import signal
import tempfile
import time
import traceback
import warnings
import zlib

_MPL = tempfile.mkdtemp(prefix='verif_mpl_')
_MAIN_PID = os.getpid()


@atexit.register
def _cleanup():
    if os.getpid() == _MAIN_PID:
        shutil.rmtree(_MPL, ignore_errors=True)


os.environ['MPLCONFIGDIR'] = _MPL
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

import numpy as np  # noqa: E402

CASE_CPU_LIMIT = 240  # CPU seconds


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Inconclusive(Exception):
    """The check itself could not work: no answer."""


class Skip(Exception):
    """The generated case is not applicable (e.g. a machine without closed orbit): it counts as nothing."""


class CaseTimeout(Exception):
    pass


class Scenario:
    def __init__(self, func, quick, thorough, serial=False):
        self.func, self.quick, self.thorough, self.serial = func, quick, thorough, serial


class LogCapture(logging.Handler):
    """Collects log records of the code under test."""

    def __init__(self):
        super().__init__(level=0)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelname, record.getMessage()))

    def __enter__(self):
        root = logging.getLogger()
        self._level = root.level
        root.setLevel(logging.DEBUG)
        root.addHandler(self)
        return self

    def __exit__(self, *exc):
        root = logging.getLogger()
        root.removeHandler(self)
        root.setLevel(self._level)
        return False

    def messages(self, level):
        return [m for lv, m in self.records if lv == level]


def jsonable(x, depth=0):
    if depth > 4:
        return str(x)[:80]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist() if x.size <= 12 else dict(shape=list(x.shape), head=x.ravel()[:4].tolist()), depth + 1)
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:25]}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:25]]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)[:80]


class Ctx:
    """One case: its random generator, what it did, and what the monitors saw."""

    def __init__(self, pid, seed, tier, scenario, idx):
        self.pid, self.seed, self.tier, self.scenario, self.idx = pid, seed, tier, scenario, idx
        self.rng = np.random.default_rng([seed, zlib.crc32(f'{pid}:{scenario}'.encode()), idx])
        self.desc = {}
        self.sigs = []
        self.asserts = 0
        self.events = {}
        np.random.seed(int(self.rng.integers(2 ** 31)))

    # --- bookkeeping
    def note(self, **kw):
        self.desc.update(kw)

    def sig(self, *parts):
        """Marks the case as non-trivial, with what makes it distinct."""
        self.sigs.append(hashlib.sha1(json.dumps(jsonable(list(parts)), sort_keys=True).encode()).hexdigest()[:16])

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # --- oracles
    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def check(self, cond, msg, key=None):
        self.asserts += 1
        if not bool(cond):
            raise Violation(msg, key)

    def close(self, got, want, msg, rtol=1e-10, atol=1e-14, key=None):
        self.asserts += 1
        try:
            g = np.asarray(got, dtype=float)
        except (TypeError, ValueError):
            raise Violation(f'{msg}: not numeric: {str(got)[:200]}', key)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            raise Violation(f'{msg}: shape {g.shape}, expected {w.shape}', key)
        if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True):
            bad = ~np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
            i = tuple(int(k) for k in np.argwhere(bad)[0]) if g.ndim else ()
            raise Violation(f'{msg}: got {g[i]!r}, expected {w[i]!r} at {i} ({int(np.sum(bad))}/{g.size} differ)', key)

    def raises(self, exc, func, msg, key=None):
        self.asserts += 1
        try:
            func()
        except exc:
            return
        except (Violation, CaseTimeout):
            raise
        except Exception as e:
            raise Violation(f'{msg}: raised {type(e).__name__} ({e}) instead of {exc}', key)
        raise Violation(f'{msg}: no exception raised', key)


def _in_repo(tb):
    """Innermost frames: True when code of pySC is on the stack below the harness frame."""
    frames = traceback.extract_tb(tb)
    prefix = os.path.realpath(REPO) + os.sep + 'pySC' + os.sep
    return any(os.path.realpath(f.filename).startswith(prefix) for f in frames), frames


def run_case(pid, seed, tier, scenario, idx, func):
    ctx = Ctx(pid, seed, tier, scenario, idx)
    out = dict(scenario=scenario, idx=idx, status='ok', msg='', key=None)

    def on_alarm(*_):
        raise CaseTimeout()

    old = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        func(ctx)
    except Violation as e:
        out.update(status='violation', msg=str(e), key=e.key)
    except CaseTimeout:
        out.update(status='violation', msg=f'no result within {CASE_CPU_LIMIT} s of CPU time')
    except Skip as e:
        out.update(status='skipped', msg=str(e))
        ctx.sigs = []
    except Inconclusive as e:
        out.update(status='inconclusive', msg=str(e))
    except MemoryError:
        out.update(status='inconclusive', msg='out of memory')
    except (ImportError, ModuleNotFoundError) as e:
        out.update(status='inconclusive', msg=f'import failed: {e}')
    except Exception as e:
        inside, frames = _in_repo(e.__traceback__)
        last = frames[-1] if frames else None
        where = f'{os.path.basename(last.filename)}:{last.name}' if last else '?'
        text = f'{type(e).__name__}: {e} [{where}]'
        if inside:
            out.update(status='violation', msg=f'valid use raised {text}', key=f'exception:{type(e).__name__}:{where}')
        elif isinstance(e, OSError):
            out.update(status='inconclusive', msg='harness: ' + ''.join(traceback.format_exception(e))[-1500:])
        else:  # what the code returned or left behind cannot even be evaluated by the oracle
            out.update(status='violation', msg=f'result cannot be judged, {text}: '
                       + ''.join(traceback.format_exception(e))[-1200:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        try:
            from matplotlib import pyplot as plt
            plt.close('all')
        except Exception:
            pass
    out.update(desc=jsonable(ctx.desc), sigs=ctx.sigs, asserts=ctx.asserts, events=ctx.events)
    return out


def load_known(pid):
    """known_findings.txt: lines 'KNOWN-FINDING: property=<id> key=<key> <text>' suppress exactly that key."""
    known = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f'KNOWN-FINDING: property={pid} key='):
                rest = line.split(' key=', 1)[1]
                key, _, text = rest.partition(' ')
                known[key] = text
    return known


def assert_repo():
    import pySC
    got = os.path.realpath(os.path.dirname(pySC.__file__))
    if got != os.path.realpath(os.path.join(REPO, 'pySC')):
        print(f'check error: pySC imported from {got}')
        sys.exit(2)


def _worker(items, pid, seed, tier, scenarios, path, deadline):
    logging.disable(logging.NOTSET)
    sys.stdout = open(os.devnull, 'w')  # optimisers print; results go to the file
    lst = []
    with open(path, 'w') as f:
        for name, idx in items:
            if time.time() > deadline:
                break
            res = run_case(pid, seed, tier, name, idx, scenarios[name].func)
            f.write(json.dumps(res) + '\n')
            f.flush()
            lst.append(res)
            if sum(r['status'] == 'violation' and r['key'] is None for r in lst) >= 3:
                break


def run_all(mod, tier, seed, replay=None):
    t0 = time.time()
    pid = mod.PID
    assert_repo()
    logging.getLogger().addHandler(logging.NullHandler())
    logging.lastResort = None
    known = load_known(pid)
    scen = mod.SCENARIOS
    evid_dir = os.path.join(VERIF, 'evidence')
    rep_dir = os.path.join(evid_dir, 'replays')
    os.makedirs(rep_dir, exist_ok=True)
    if replay:
        rp = json.load(open(replay))
        res = run_case(pid, rp['seed'], rp['tier'], rp['scenario'], rp['index'], scen[rp['scenario']].func)
        print(json.dumps({k: res[k] for k in ('scenario', 'idx', 'status', 'msg', 'desc')}, indent=1))
        if res['status'] == 'violation':
            if res['key'] in known:
                print(f'KNOWN-FINDING: property={pid} {known[res["key"]]}')
                return 0
            print(f'VIOLATION property={pid} replay={replay}')
            return 1
        return 0 if res['status'] == 'ok' else 2

    items = []
    for name, s in scen.items():
        n = s.quick if tier == 'quick' else s.thorough
        items += [(name, i, s.serial) for i in range(n)]
    budget = 420 if tier == 'quick' else 3000
    deadline = t0 + budget
    n_work = max(1, min(8, (os.cpu_count() or 1), len(items)))
    if os.environ.get('VERIF_WORKERS'):
        n_work = int(os.environ['VERIF_WORKERS'])
    # interleave so that every worker gets a mix of scenarios
    order = sorted(range(len(items)), key=lambda k: zlib.crc32(f'{items[k][0]}:{items[k][1]}'.encode()))
    shares = [[items[k][:2] for k in order[w::n_work]] for w in range(n_work)]
    import multiprocessing
    mp = multiprocessing.get_context('fork')
    tmp = tempfile.mkdtemp(prefix='verif_run_')
    procs, results, crashed = [], [], []
    try:
        for w, share in enumerate(shares):
            path = os.path.join(tmp, f'{w}.jsonl')
            p = mp.Process(target=_worker, args=(share, pid, seed, tier, scen, path, deadline), daemon=False)
            p.start()
            procs.append((p, path, len(share)))
        for p, path, _ in procs:
            p.join()
            if os.path.exists(path):
                for line in open(path):
                    try:
                        results.append(json.loads(line))
                    except ValueError:
                        pass
            if p.exitcode != 0:
                crashed.append(p.exitcode)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    results.sort(key=lambda r: (list(scen).index(r['scenario']), r['idx']))
    viol = [r for r in results if r['status'] == 'violation' and r['key'] not in known]
    found = [r for r in results if r['status'] == 'violation' and r['key'] in known]
    incon = [r for r in results if r['status'] == 'inconclusive']
    sigs = set()
    per = {}
    events = {}
    for r in results:
        p = per.setdefault(r['scenario'], dict(cases=0, nontrivial=0, comparisons=0))
        p['cases'] += 1
        p['nontrivial'] += bool(r['sigs'])
        p['comparisons'] += r['asserts']
        for s in r['sigs']:
            sigs.add((r['scenario'], s))
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
    samples, seen = [], {}
    for r in results:
        if r['status'] == 'ok' and r['sigs'] and seen.setdefault(r['scenario'], 0) < 2:
            seen[r['scenario']] += 1
            samples.append(dict(scenario=r['scenario'], index=r['idx'], case=r['desc'], comparisons=r['asserts']))
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=len(results), distinct_nontrivial=len(sigs), rule=mod.RULE,
                            samples=samples[:14] or [dict(note='no completed case')], scenarios=per, events=events,
                            comparisons=sum(r['asserts'] for r in results), planned=len(items),
                            inconclusive=len(incon), skipped=sum(r['status'] == 'skipped' for r in results), workers=n_work),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2), violations=len(viol))
    if found:
        ev['coverage']['known_findings'] = sorted({r['key'] for r in found})
    tmpf = os.path.join(evid_dir, f'.{pid}.{os.getpid()}')
    with open(tmpf, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmpf, os.path.join(evid_dir, f'{pid}.json'))

    for key in sorted({r['key'] for r in found}):
        print(f'KNOWN-FINDING: property={pid} {known[key]}')
    if viol:
        for k, r in enumerate(viol[:3]):
            rep = os.path.join(rep_dir, f'{pid}_{tier}_{seed}_{r["scenario"]}_{r["idx"]}.json')
            with open(rep, 'w') as f:
                json.dump(dict(property=pid, seed=seed, tier=tier, scenario=r['scenario'], index=r['idx'], message=r['msg'],
                               case=r['desc']), f, indent=1)
            print(f'{pid} {r["scenario"]}[{r["idx"]}]: {r["msg"][:250]}' + (' ... ' + r["msg"][-250:] if len(r["msg"]) > 500 else ''))
            print(f'  case: {json.dumps(r["desc"])[:600]}')
            print(f'VIOLATION property={pid} replay={os.path.relpath(rep, VERIF)}')
        return 1
    if crashed or incon:
        for r in incon[:3]:
            print(f'{pid} inconclusive {r["scenario"]}[{r["idx"]}]: {r["msg"]}')
        if crashed:
            print(f'{pid}: worker ended with {crashed}')
        return 2
    empty = [n for n in scen if (scen[n].quick if tier == 'quick' else scen[n].thorough) and not per.get(n, {}).get('nontrivial')]
    if empty:
        print(f'{pid}: monitors saw nothing in {empty}')
        return 2
    print(f'{pid} {tier} seed={seed}: held on {len(results)} cases ({len(sigs)} distinct, '
          f'{ev["coverage"]["comparisons"]} comparisons) in {ev["wall_s"]:.1f} s')
    return 0
