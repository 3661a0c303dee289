"""Runner of the runtime monitors.

A property module (rv/props/cXX.py) defines FAMILIES, a list of Family objects.
Each family is a workload generator plus an online oracle: `fn(ctx)` draws one
case from ctx.rng, drives the real chaosmagpy code through ctx.call (the client
boundary, where the monitor sees arguments, result, warnings, exceptions) and
judges what came back with ctx.check/ctx.close against an independent oracle.
Verdicts: held (exit 0), violated (exit 1, replay file), inconclusive (exit 3).
"""
import contextlib
import copy
import hashlib
import io
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)

import numpy as np                                      # noqa: E402
import matplotlib                                       # noqa: E402
matplotlib.use('Agg')
import matplotlib.pyplot                                # noqa: E402,F401
import scipy.interpolate, pandas, h5py, hdf5storage     # noqa: E402,E401,F401
# compile chaosmagpy from its source, never from a cached .pyc
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/rv-pycache'
import chaosmagpy as cp                                 # noqa: E402
sys.pycache_prefix = None

PKG = os.path.realpath(os.path.dirname(cp.__file__))
if not PKG.startswith(os.path.realpath(REPO) + os.sep):
    print(f'INCONCLUSIVE chaosmagpy imported from {PKG}, not from {REPO}')
    sys.exit(3)


class Violation(Exception):
    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class Inconclusive(Exception):
    pass


class Family:
    """name, case function, number of cases in the quick and thorough tier."""

    def __init__(self, name, fn, quick, thorough, rule=''):
        self.name, self.fn = name, fn
        self.n = {'quick': quick, 'thorough': thorough}
        self.rule = rule or (fn.__doc__ or '').strip().split('\n\n')[0]


def _hash_update(h, x):
    if isinstance(x, np.ndarray):
        h.update(str((x.dtype, x.shape)).encode())
        if x.dtype == object:
            for y in x.ravel():
                _hash_update(h, y)
        else:
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, dict):
        for k in x:
            h.update(repr(k).encode())
            _hash_update(h, x[k])
    elif isinstance(x, (list, tuple)):
        h.update(b'(')
        for y in x:
            _hash_update(h, y)
        h.update(b')')
    elif callable(x):
        h.update(getattr(x, '__name__', 'callable').encode())
    elif hasattr(x, 'coeffs') and hasattr(x, 'breaks'):
        _hash_update(h, [x.breaks, x.coeffs])
    elif type(x).__repr__ is object.__repr__:
        h.update(type(x).__name__.encode())
    else:
        h.update(repr(x).encode())


def digest(*x):
    h = hashlib.blake2b(digest_size=10)
    _hash_update(h, list(x))
    return h.hexdigest()


def brief(x, n=6):
    """Short JSON-able description of a value."""
    if isinstance(x, np.ndarray):
        flat = [str(v) if not isinstance(v, (int, float)) else v
                for v in x.ravel()[:n].tolist()]
        return {'shape': list(x.shape), 'dtype': str(x.dtype), 'head': flat}
    if isinstance(x, (bool, int, float, str)) or x is None:
        return x
    if isinstance(x, np.generic):
        return brief(x.item())
    if isinstance(x, dict):
        return {str(k): brief(v) for k, v in list(x.items())[:n]}
    if isinstance(x, (list, tuple)):
        return [brief(v) for v in x[:n]]
    return str(x)[:80]


def blanket_filters():
    """Warning filters that concern every module's ordinary warnings."""
    return [f[:3] for f in warnings.filters if f[1] is None and f[3] is None
            and f[2] in (Warning, UserWarning, RuntimeWarning)]


class Ctx:
    def __init__(self, prop, family, index, seed, tier, scratch):
        key = [int(hashlib.blake2b(f'{prop}/{family}'.encode(),
                                   digest_size=4).hexdigest(), 16), seed, index]
        self.rng = np.random.default_rng(key)
        self.prop, self.family, self.index = prop, family, index
        self.seed, self.tier = seed, tier
        self._scratch_root = scratch
        self._scratch = None
        self.calls = Counter()      # library calls observed, by function name
        self.hits = Counter()       # situations the workload reached
        self.oracle = 0             # oracle comparisons made
        self.values = 0             # numbers compared
        self.log = []               # trace of the last calls
        self.sample = {}
        self.warned = []
        self._digest = hashlib.blake2b(digest_size=10)
        self.worst = 0.0            # largest error / tolerance observed

    # -- workload helpers ---------------------------------------------------
    @property
    def scratch(self):
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(dir=self._scratch_root)
        return self._scratch

    def path(self, name):
        return os.path.join(self.scratch, name)

    def pick(self, *options):
        return options[int(self.rng.integers(len(options)))]

    def chance(self, p):
        return bool(self.rng.random() < p)

    def int(self, lo, hi):
        """Random integer, both ends included."""
        return int(self.rng.integers(lo, hi + 1))

    def uni(self, lo, hi, size=None):
        return self.rng.uniform(lo, hi, size)

    def hit(self, *names):
        for n in names:
            self.hits[n] += 1

    def describe(self, **kw):
        self.sample.update({k: brief(v) for k, v in kw.items()})
        _hash_update(self._digest, kw)

    # -- client boundary ----------------------------------------------------
    def call(self, fn, *args, **kwargs):
        """Call library code, record the event, its warnings and result."""
        name = getattr(fn, '__qualname__', getattr(fn, '__name__', str(fn)))
        self.calls[name] += 1
        _hash_update(self._digest, [name, args, kwargs])
        self.log.append({'call': name, 'args': [brief(a, 24) for a in args],
                         'kwargs': {k: brief(v, 24)
                                    for k, v in kwargs.items()}})
        del self.log[:-12]
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            filters = blanket_filters()
            try:
                out = fn(*args, **kwargs)
            except Exception as err:
                self.log[-1]['raised'] = repr(err)[:200]
                raise
            finally:
                self.warned = [w for w in rec]
                self.filters_kept = blanket_filters() == filters
        self.log[-1]['returned'] = brief(list(out) if isinstance(out, tuple)
                                         else out)
        return out

    def user_warnings(self):
        """Messages of UserWarnings raised by the last call."""
        return [str(w.message) for w in self.warned
                if w.category is UserWarning]

    def rejects(self, fn, *args, exc=Exception, what=None, key=None, **kwargs):
        """The call must raise `exc` rather than return."""
        what = what or getattr(fn, '__name__', str(fn))
        self.oracle += 1
        try:
            out = self.call(fn, *args, **kwargs)
        except NameError as err:
            # also UnboundLocalError: an accident, not a rejection
            self.fail(f'{what}: raised {err!r}', key)
        except exc as err:
            self.hits['rejected'] += 1
            return err
        except Exception as err:
            self.fail(f'{what}: raised {err!r} instead of {exc}', key)
        self.fail(f'{what}: accepted, returned {str(brief(out))[:300]}', key)

    # -- oracle -------------------------------------------------------------
    def fail(self, message, key=None):
        raise Violation(message, key or f'{self.family}')

    def check(self, cond, message, key=None):
        self.oracle += 1
        if not bool(cond):
            self.fail(message, key)

    def close(self, got, want, tol, what, key=None, shape=True):
        """got equals want elementwise within absolute tolerance tol (array)."""
        self.oracle += 1
        try:
            g = np.asarray(got)
            g = g.astype(complex if np.iscomplexobj(g) or np.iscomplexobj(want)
                         else np.longdouble)
        except (TypeError, ValueError):
            self.fail(f'{what}: not numeric: {str(got)[:200]}', key)
        w = np.asarray(want)
        if shape and g.shape != w.shape:
            self.fail(f'{what}: shape {g.shape}, expected {w.shape}', key)
        try:
            g, w = np.broadcast_arrays(g, w)
        except ValueError:
            self.fail(f'{what}: shape {g.shape}, expected {w.shape}', key)
        self.values += g.size
        if g.size == 0:
            return
        t = np.broadcast_to(np.asarray(tol, dtype=float), g.shape)
        with np.errstate(all='ignore'):
            err = np.abs(g - w)
            gn, wn = np.isnan(g), np.isnan(w)
            bad = (err > t) | (gn != wn) | (np.isnan(err) & ~(gn & wn)
                                            & ~(g == w))
            bad &= ~((g == w))
        if bad.any():
            i = tuple(np.argwhere(bad)[0].tolist())
            self.fail(f'{what}: {int(bad.sum())} of {g.size} values differ, '
                      f'first at {i}: got {g[i]}, expected {w[i]}, '
                      f'tolerance {t[i]:.3g}', key)
        with np.errstate(all='ignore'):
            ratio = np.where(t > 0, err / np.where(t > 0, t, 1), 0)
            ratio = ratio[np.isfinite(ratio)]
            if ratio.size:
                self.worst = max(self.worst, float(ratio.max()))

    def equal(self, got, want, what, key=None):
        self.oracle += 1
        if isinstance(want, np.ndarray) or isinstance(got, np.ndarray):
            g, w = np.asarray(got), np.asarray(want)
            self.values += w.size
            if g.shape != w.shape:
                self.fail(f'{what}: shape {g.shape}, expected {w.shape}', key)
            if g.dtype.kind in 'fc' and w.dtype.kind in 'fc':
                same = np.array_equal(g, w, equal_nan=True)
            else:
                same = np.array_equal(g, w)
            if not same:
                self.fail(f'{what}: {str(brief(g))[:300]} != '
                          f'{str(brief(w))[:300]}', key)
        elif got != want:
            self.fail(f'{what}: {got!r} != {want!r}', key)


def run_case(prop, fam, index, seed, tier, scratch, timeout):
    ctx = Ctx(prop, fam.name, index, seed, tier, scratch)
    cfg = cp.basicConfig
    saved = {k: copy.deepcopy(v) for k, v in dict.items(cfg)}
    res = dict(family=fam.name, index=index, verdict='held')
    cwd = os.getcwd()

    def on_alarm(signum, frame):
        raise Inconclusive(f'case exceeded {timeout} s')

    # real-time watchdog: firing is inconclusive, never a violation
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(timeout)
    err_state = np.geterr()
    try:
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()), \
                warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fam.fn(ctx)
        if ctx.oracle == 0:
            res.update(verdict='empty')
    except Violation as err:
        res.update(verdict='violated', message=str(err), key=err.key)
    except (Inconclusive, MemoryError) as err:
        res.update(verdict='inconclusive', message=repr(err))
    except Exception as err:
        tb = traceback.extract_tb(err.__traceback__)
        where = [f'{os.path.basename(f.filename)}:{f.lineno}:{f.name}'
                 for f in tb][-6:]
        res.update(verdict='violated', key=f'{fam.name}/exception',
                   message=f'unexpected exception {err!r} at {where}')
    finally:
        signal.alarm(0)
        np.seterr(**err_state)
        os.chdir(cwd)
        dict.clear(cfg)
        dict.update(cfg, saved)
        if ctx._scratch is not None:
            shutil.rmtree(ctx._scratch, ignore_errors=True)
    res.update(calls=ctx.calls, hits=ctx.hits, oracle=ctx.oracle,
               values=ctx.values, worst=ctx.worst,
               digest=ctx._digest.hexdigest(), sample=ctx.sample)
    if res['verdict'] != 'held':
        res['log'] = ctx.log
    return res


# -- line reach (sys.monitoring) ---------------------------------------------
LINES = set()


def start_lines():
    mon = sys.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, 'rv')
    except ValueError:
        return

    def on_line(code, line):
        f = code.co_filename
        if f.startswith(PKG):
            LINES.add((os.path.basename(f), line))
        return mon.DISABLE

    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)


def _worker(prop, fams, jobs, seed, tier, scratch, timeout, deadline, conn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    start_lines()
    nviol = 0
    try:
        for k, (fi, index) in enumerate(jobs):
            if time.monotonic() > deadline:
                conn.send(('late', len(jobs) - k))
                break
            res = run_case(prop, fams[fi], index, seed, tier, scratch, timeout)
            conn.send(('res', res))
            if res['verdict'] == 'violated':
                nviol += 1
                if nviol >= int(os.environ.get('VERIF_STOP', 25)):
                    break
        conn.send(('lines', LINES))
        conn.send(('done', None))
    except BaseException as err:
        try:
            conn.send(('error', repr(err)))
        except Exception:
            pass
    conn.close()


def load_known():
    """Entries 'known: property=<id> key=<mechanism> <text>' of the file."""
    known = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m:
                known[(m[1], m[2])] = m[3]
    return known


def run_property(module, prop, tier, seed, limit=None, only=None):
    t0 = time.monotonic()
    fams = module.FAMILIES
    level = getattr(module, 'LEVEL', 'exploration')
    required = getattr(module, 'REQUIRED', [])
    timeout = getattr(module, 'CASE_TIMEOUT', 240)
    budget = {'quick': 600, 'thorough': 5400}[tier]
    deadline = t0 + float(os.environ.get('VERIF_BUDGET', budget))
    jobs = []
    for fi, fam in enumerate(fams):
        if only and fam.name not in only:
            continue
        n = fam.n[tier]
        if limit:
            n = min(n, limit)
        jobs += [(fi, i) for i in range(n)]
    # interleave the families so that a deadline cuts all of them alike
    jobs.sort(key=lambda j: (j[1] / max(fams[j[0]].n[tier], 1), j[0]))
    nproc = min(int(os.environ.get('VERIF_JOBS', os.cpu_count() or 1)),
                getattr(module, 'MAX_PROCS', 8), max(1, len(jobs)))
    scratch = tempfile.mkdtemp(prefix=f'rv-{prop}-')
    os.environ['MPLCONFIGDIR'] = scratch
    results, late, errors, lines = [], 0, [], set()
    ctxm = mp.get_context('fork')
    procs = []
    sys.stdout.flush()
    try:
        for p in range(nproc):
            a, b = ctxm.Pipe(False)
            proc = ctxm.Process(target=_worker, args=(
                prop, fams, jobs[p::nproc], seed, tier, scratch, timeout,
                deadline, b))
            proc.start()
            b.close()
            procs.append((proc, a))
        live = {a: proc for proc, a in procs}
        hard = deadline + timeout + 60
        while live:
            ready = mp.connection.wait(list(live), timeout=5)
            if not ready and time.monotonic() > hard:
                errors.append('worker did not finish')
                break
            for a in ready:
                try:
                    kind, val = a.recv()
                except EOFError:
                    errors.append('worker died')
                    live.pop(a)
                    continue
                if kind == 'res':
                    results.append(val)
                elif kind == 'late':
                    late += val
                elif kind == 'lines':
                    lines |= val
                elif kind == 'error':
                    errors.append(val)
                    live.pop(a)
                elif kind == 'done':
                    live.pop(a)
    finally:
        for proc, a in procs:
            if proc.is_alive():
                proc.join(2)
            if proc.is_alive():
                proc.kill()
                proc.join()
        shutil.rmtree(scratch, ignore_errors=True)

    results.sort(key=lambda r: (r['family'], r['index']))
    known = load_known()
    viol = [r for r in results if r['verdict'] == 'violated']
    seen_known = {}
    fresh = []
    for r in viol:
        if (prop, r.get('key')) in known:
            seen_known.setdefault(r['key'], r)
        else:
            fresh.append(r)
    hits, calls = Counter(), Counter()
    for r in results:
        hits.update(r['hits'])
        calls.update(r['calls'])
    per = {}
    for fam in fams:
        rs = [r for r in results if r['family'] == fam.name]
        if not rs:
            continue
        per[fam.name] = dict(
            cases=len(rs), oracle_comparisons=sum(r['oracle'] for r in rs),
            values_compared=sum(r['values'] for r in rs),
            worst_error_over_tolerance=round(max(r['worst'] for r in rs), 4),
            rule=fam.rule)
    distinct = {r['digest'] for r in results
                if r['oracle'] > 0 and sum(r['calls'].values()) > 0}
    samples = []
    for fam in fams:
        for r in results:
            if r['family'] == fam.name and r['sample']:
                samples.append(dict(family=fam.name, index=r['index'],
                                    case=r['sample'],
                                    calls=dict(r['calls'])))
                break
    missing = [h for h in required if hits[h] == 0]
    incon = [r for r in results if r['verdict'] in ('inconclusive', 'empty')]
    by_file = Counter(f for f, _ in lines)
    wall = time.monotonic() - t0
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=level,
        coverage=dict(
            evaluations=len(results), distinct_nontrivial=len(distinct),
            rule='Case = one workload drawn from (property, family, seed, '
                 'index); non-trivial if it called the library and at least '
                 'one oracle comparison decided it; distinct by the digest of '
                 'all call names and arguments. Families: ' + '; '.join(
                     f'{k}: {v["rule"]}' for k, v in per.items()),
            samples=samples[:12],
            oracle_comparisons=sum(r['oracle'] for r in results),
            values_compared=sum(r['values'] for r in results),
            library_calls_observed=dict(calls.most_common(60)),
            situations_reached=dict(sorted(hits.items())),
            families=per,
            chaosmagpy_lines_reached=dict(by_file),
            cases_cut_by_deadline=late),
        assumptions=getattr(module, 'ASSUMPTIONS', []),
        wall_s=round(wall, 2), violations=len(fresh))
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, default=str)
    if os.environ.get('VERIF_LINES'):
        with open(os.environ['VERIF_LINES'], 'w') as f:
            json.dump(sorted(lines), f)

    print(f'{prop} tier={tier} seed={seed} cases={len(results)} '
          f'distinct={len(distinct)} comparisons='
          f'{evidence["coverage"]["oracle_comparisons"]} '
          f'values={evidence["coverage"]["values_compared"]} '
          f'wall={wall:.1f}s')
    for k, v in per.items():
        print(f'   {k}: {v["cases"]} cases, {v["oracle_comparisons"]} '
              f'comparisons, worst err/tol {v["worst_error_over_tolerance"]}')
    for (p, key), text in known.items():
        if p == prop and key in seen_known:
            print(f'KNOWN-FINDING: property={prop} {text}')
    if fresh:
        shown = set()
        for r in fresh:
            if r['key'] in shown or len(shown) >= 5:
                continue
            shown.add(r['key'])
            d = os.path.join(VERIF, 'out', 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(
                d, f'{prop}-{r["family"]}-{seed}-{r["index"]}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=prop, family=r['family'],
                               index=r['index'], seed=seed, tier=tier,
                               key=r['key'], message=r['message'],
                               log=r['log'], sample=r['sample']),
                          f, indent=1, default=str)
            print(f'VIOLATION property={prop} replay={path}')
            print(f'   [{r["family"]}#{r["index"]}] {r["message"][:600]}')
        print(f'{len(fresh)} violating cases in total')
        return 1
    for e in errors:
        print('INCONCLUSIVE harness error:', e)
    for r in incon[:5]:
        print(f'INCONCLUSIVE case {r["family"]}#{r["index"]}: '
              f'{r.get("message", "no oracle comparison")}')
    if missing and not only and not limit:
        print('INCONCLUSIVE situations never reached:', missing)
    if errors or incon or (missing and not only and not limit) or not results:
        return 3
    if late and len(results) < len(jobs) / 2:
        print(f'INCONCLUSIVE {late} of {len(jobs)} cases cut by the deadline')
        return 3
    return 0


def replay(module, prop, path):
    r = json.load(open(path))
    fam = [f for f in module.FAMILIES if f.name == r['family']][0]
    scratch = tempfile.mkdtemp(prefix='rv-replay-')
    try:
        res = run_case(prop, fam, r['index'], r['seed'], r['tier'], scratch,
                       600)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(json.dumps({k: res[k] for k in res if k in (
        'verdict', 'message', 'key', 'log', 'sample')}, indent=1, default=str))
    return 1 if res['verdict'] == 'violated' else 0
