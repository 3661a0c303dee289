"""C07: SHC files round-trip and follow the documented layout."""
import os

import numpy as np

from ..core import cp, Family
from .. import refs as R, gens as G

du = cp.data_utils
REQUIRED = ['model names', 'nmin>1', 'nmax cut', 'order 1', 'order 2', 'order 6', 'one piece',
            'many pieces', 'leap years', '365.25', 'scalar time', '1-D coeffs',
            'comment lines', 'comment tuple', 'blank line', 'static', 'tdep',
            'step > order-1', 'own header', 'trailing samples', 'header', 'irregular',
            'times before 1700']


def parse(path):
    """Own reader of the documented layout: comments, header, times, rows."""
    comments, rows = [], []
    for line in open(path):
        if line.lstrip().startswith('#'):
            comments.append(line)
        elif line.strip():
            rows.append(line.split())
    head = [int(v) for v in rows[0]]
    times = [float(v) for v in rows[1]]
    nm = [(int(r[0]), int(r[1])) for r in rows[2:]]
    data = np.array([[float(v) for v in r[2:]] for r in rows[2:]])
    return comments, head, np.array(times), nm, data, rows


def table(ctx):
    """save_shcfile writes the documented layout (own parser) and load_shcfile returns times, coefficients, parameters"""
    nhi = ctx.int(1, 7)
    N = ctx.pick(1, 1, 2, 5, 9)
    if ctx.chance(0.01):
        ctx.hit('large file')
        nhi, N = ctx.pick((13, 30), (20, 101), (35, 1), (105, 1), (2, 1100))
    lo = ctx.pick(-20000., -300000., 5000.)
    t = np.sort(lo + ctx.uni(0, 9000, N))
    if lo < -110000:
        ctx.hit('times before 1700')
    if ctx.chance(0.4):
        t = np.round(t)
    amp = ctx.pick(1e5, 1.0, 1e-4, 1e9)
    c = ctx.rng.normal(size=(N, nhi * (nhi + 2))) * amp
    kw = {}
    nmin, nmax = 1, nhi
    if ctx.chance(0.5):
        kw['nmin'] = nmin = ctx.int(1, nhi)
        if nmin > 1:
            ctx.hit('nmin>1')
    if ctx.chance(0.5):
        kw['nmax'] = nmax = ctx.int(nmin, nhi)
        if nmax < nhi:
            ctx.hit('nmax cut')
    order = 1
    if ctx.chance(0.6):
        kw['order'] = order = ctx.int(1, 6)
    ly = True
    if ctx.chance(0.7):
        kw['leap_year'] = ly = ctx.chance(0.5)
    ctx.hit('leap years' if ly else '365.25')
    if ctx.chance(0.4):
        kw['header'] = '# some header\n#\n# 1 2 3 4 5\n'
        ctx.hit('header')
    arg_t, arg_c = t, c
    if N == 1:
        u = ctx.int(0, 2)
        if u == 0:
            arg_t = float(t[0])
            ctx.hit('scalar time')
        if u < 2:
            arg_c = c[0]
            ctx.hit('1-D coeffs')
    elif ctx.chance(0.3):
        arg_t = t.tolist()
    path = ctx.path('a model.shc')
    ctx.describe(time=t, coeffs=c, **kw)
    ctx.call(du.save_shcfile, arg_t, arg_c, filepath=path, **kw)
    comments, head, times, nm, data, rows = parse(path)
    ctx.equal(head, [nmin, nmax, N, order, order - 1], 'header line')
    ctx.equal(nm, R.coeff_index(nmin, nmax, nmax), 'order of the rows')
    want = np.array([float(R.mjd_to_dyear(x, ly)) for x in t])
    ctx.close(times, want, 0.51e-8 + 1e-12, 'decimal years in the file')
    sub = c[:, nmin ** 2 - 1:(nmax + 1) ** 2 - 1].T
    ctx.close(data, sub, 0.51e-8 + 1e-10 * amp / 1e4, 'coefficients in the '
              'file')
    if 'header' in kw:
        ctx.check(''.join(comments).startswith(kw['header']), 'header missing')
    kl = {} if ly and ctx.chance(0.5) else dict(leap_year=ly)
    time, coeffs, params = ctx.call(du.load_shcfile, path, **kl)
    ctx.close(np.ravel(time), t, 366 * 0.51e-8 + 1e-9, 'loaded times')
    ctx.close(coeffs, data, 0, 'loaded coefficients')
    ctx.equal({k: params[k] for k in params}, dict(
        SHC='a model.shc', nmin=nmin, nmax=nmax, N=N, order=order,
        step=order - 1), 'loaded parameters')


def foreign(ctx):
    """load_shcfile on files written by our own writer: comments anywhere, other comment characters, blank lines, spacing"""
    nmin = ctx.int(1, 4)
    nmax = nmin + ctx.int(0, 4)
    N = ctx.pick(1, 2, 6)
    if ctx.chance(0.01):
        nmin, N = ctx.int(8, 25), ctx.pick(1, 3, 120)
        nmax = nmin + ctx.int(0, 15)
    order = ctx.int(1, 6)
    step = ctx.pick(order - 1, order - 1 + ctx.int(0, 3))
    idx = R.coeff_index(nmin, nmax, nmax)
    ly = ctx.chance(0.5)
    years = np.round(np.sort(ctx.uni(1600, 2100, N)), ctx.pick(0, 1, 4))
    c = np.round(ctx.rng.normal(size=(len(idx), N)) * 1e3, ctx.pick(0, 2, 5))
    cm = ctx.pick('#', '#', '%', ('#', '%'))
    if isinstance(cm, tuple):
        ctx.hit('comment tuple')
    mark = cm if isinstance(cm, str) else cm[1]
    sep = ctx.pick(' ', '   ', '\t')
    path = ctx.path('x.shc')
    with open(path, 'w') as f:
        for _ in range(ctx.int(0, 3)):
            f.write(ctx.pick('', '  ') + mark + ' 7 comment 1.0\n')
            ctx.hit('comment lines')
        f.write(sep.join(map(str, [nmin, nmax, N, order, step])) + '\n')
        if ctx.chance(0.3):
            f.write(mark + ' after the header\n')
            ctx.hit('comment lines')
        f.write(sep + sep.join(f'{y:.4f}' for y in years) + '\n')
        for (n, m), row in zip(idx, c):
            f.write(f'{n}{sep}{m}{sep}' + sep.join(repr(float(v))
                                                  for v in row) + '\n')
            if ctx.chance(0.05):
                f.write(mark + ' in between 3 4\n')
        if ctx.chance(0.3):
            f.write(ctx.pick('\n', '   \n'))
            ctx.hit('blank line')
    ctx.describe(nmin=nmin, nmax=nmax, N=N, order=order, step=step, leap=ly)
    kw = dict(leap_year=ly)
    if cm != '#' or ctx.chance(0.3):
        kw['comment'] = cm
    time, coeffs, params = ctx.call(du.load_shcfile, path, **kw)
    want = np.array([float(R.dyear_to_mjd(round(y, 4), ly)) for y in years])
    ctx.close(np.asarray(time), want, 1e-7, 'times of the file')
    ctx.close(coeffs, c, 0, 'coefficients of the file')
    ctx.equal([params[k] for k in ('nmin', 'nmax', 'N', 'order', 'step')],
              [nmin, nmax, N, order, step], 'parameters')


def spline_model(ctx, order):
    pieces = ctx.pick(1, 1, 2, 3, 7, 20)
    ctx.hit('one piece' if pieces == 1 else 'many pieces')
    irr = ctx.chance(0.4)
    lo = ctx.pick(-2000., 5000., -200000.)
    if irr:
        ctx.hit('irregular')
        brk = lo + np.r_[0, np.cumsum(ctx.uni(120, 400, pieces))]
    else:
        h = ctx.pick(182.625, 365.25, 100.0, 61.7, 913.125)
        brk = lo + ctx.uni(0, 300) + h * np.arange(pieces + 1)
        if ctx.chance(0.3):
            brk = np.round(brk)
    return brk


def check_times(ctx, brk, n):
    """times in the period, not closer than 1e-3 days to a break"""
    t = ctx.uni(brk[0], brk[-1], n)
    t = np.r_[t, 0.5 * (brk[:-1] + brk[1:])]
    d = np.abs(t[:, None] - brk[None, :]).min(axis=1)
    return t[d > 1e-3]


def expected(brk, co, t):
    return np.array([R.pp_eval(brk, co, x)[0] for x in t])


def roundtrip(ctx):
    """BaseModel.to_shc -> from_shc, CHAOS.save_shcfile -> load_CHAOS_shcfile reproduce the model in its whole period"""
    order = ctx.pick(1, 2, 3, 4, 5, 6)
    ctx.hit(f'order {order}')
    brk = spline_model(ctx, order)
    n = ctx.int(1, 5)
    if ctx.chance(0.01):
        n = ctx.pick(10, 13, 20)
        ctx.hit('high degree')
    dim = n * (n + 2)
    amp = 1e3
    if order == 1:
        co = ctx.rng.normal(size=(1, brk.size - 1, dim)) * amp
    else:
        co = G.continuous_pp(ctx, order, brk, dim, amp)
    ly = ctx.pick(None, True, False)
    kw = {} if ly is None else dict(leap_year=ly)
    ctx.hit('leap years' if ly else '365.25')
    stem = ctx.pick('model_x', 'COV-OBS.x2', 'CHAOS-7.18_core',
                    'msh', 'basic', 'CHAOS-7_shc', 'chaos', 'c.s.h')
    path = ctx.path(stem + '.shc')
    nmin, nmax = 1, n
    via = ctx.int(0, 2)
    ctx.describe(order=order, breaks=brk, n=n, leap_year=ly, via=via)
    if via < 2:
        m = ctx.call(cp.chaos.BaseModel, 'model', brk, order, co)
        ks = dict(kw)
        if ctx.chance(0.4):
            ks['nmin'] = nmin = ctx.int(1, n)
            if nmin > 1:
                ctx.hit('nmin>1')
        if ctx.chance(0.4):
            ks['nmax'] = nmax = ctx.int(nmin, n)
            if nmax < n:
                ctx.hit('nmax cut')
        if ctx.chance(0.4):
            ctx.hit('own header')
            ks['header'] = ctx.pick('# own\n', '# own header\n# 1 2 3\n')
        ctx.call(m.to_shc, path, **ks)
        with open(path) as f:
            text = f.read()
        if 'header' in ks:
            ctx.check(text.startswith(ks['header']), 'to_shc: header missing')
        else:
            ctx.check('model' in text and text.startswith('#'),
                      'to_shc: no comment with the name of the model')
        if via == 1:
            src = ctx.pick(None, 'external')
            got = ctx.call(cp.chaos.BaseModel.from_shc, path, source=src, **kw)
            ctx.check(got.source == (src or 'internal'), 'from_shc source')
            ctx.check(got.name == stem, f'from_shc name {got.name}')
        else:
            named = ctx.pick(None, 'own name')
            got = ctx.call(cp.load_CHAOS_shcfile, path,
                           **({} if named is None else dict(name=named)),
                           **kw)
            named = named or stem
    else:
        m = ctx.call(cp.CHAOS, brk, order, coeffs_tdep=co)
        ctx.call(m.save_shcfile, path, model=ctx.pick(None, 'tdep'), **kw)
        f = ctx.pick(cp.load_CHAOS_shcfile, cp.CHAOS.from_shc)
        # the documented default names of the two differ, so give one
        named = 'my CHAOS'
        got = ctx.call(f, path, name=named, **kw)
    if via != 1:
        ctx.hit('model names')
        ctx.check(got.name == named, f'name {got.name!r} of the loaded model')
        if order == 1 and brk.size == 2:
            ctx.hit('static')
            ctx.check(got.model_tdep is None, 'order-1 single epoch: not '
                      'static')
            got = got.model_static
        else:
            ctx.hit('tdep')
            ctx.check(got.model_static is None, 'static part from nowhere')
            got = got.model_tdep
    ctx.equal([got.order, got.nmax, got.dim], [order, nmax,
                                               nmax * (nmax + 2)],
              'order, nmax, dim of the loaded model')
    if order > 1:
        ctx.close(got.breaks, brk, 1e-5, 'breaks of the loaded model')
    else:
        ctx.close(got.breaks[:-1], brk[:-1], 1e-5, 'epochs')
    t = check_times(ctx, brk, 6)
    want = expected(brk, co, t)[:, :nmax * (nmax + 2)].copy()
    want[:, :nmin ** 2 - 1] = 0
    c = ctx.call(got.synth_coeffs, t)
    # sample rounding 5e-9, time rounding 4e-6 days, amplified by the fit
    slope = max(R.pp_scale_day(brk, co, x) for x in t)
    ctx.close(c, want, 1e-4 + 4e-5 * slope if order > 1 else 1e-7,
              'coefficients after the round trip')
    if nmin > 1:
        ctx.check(np.all(np.abs(c[:, :nmin ** 2 - 1]) < 1e-12),
                  'coefficients below nmin are not zero')


def static_part(ctx):
    """CHAOS.save_shcfile(model='static') -> load: the static field above the time-dependent degrees, zeros below"""
    nt = ctx.pick(None, ctx.int(1, 5))
    ns = (nt or 0) + ctx.int(1, 4)
    if ctx.chance(0.02):
        ns = ctx.pick(12, 25, 100)
    brk = np.sort(ctx.uni(-2000, 5000, 3))
    kw = {}
    if nt:
        kw['coeffs_tdep'] = ctx.rng.normal(size=(2, 2, nt * (nt + 2)))
    s = ctx.rng.normal(size=(1, 1, ns * (ns + 2))) * 100
    m = ctx.call(cp.CHAOS, brk, 2, coeffs_static=s, **kw)
    ly = ctx.pick(None, True, False)
    k2 = {} if ly is None else dict(leap_year=ly)
    path = ctx.path('s.shc')
    ctx.call(m.save_shcfile, path, model='static', **k2)
    nmin = 1 if nt is None else nt + 1
    _, head, times, nm, data, _ = parse(path)
    ctx.equal(head, [nmin, ns, 1, 1, 0], 'header of the static file')
    ctx.close(times, [float(R.mjd_to_dyear(brk[0], bool(ly)))], 1e-8, 'epoch')
    got = ctx.call(cp.load_CHAOS_shcfile, path, name='nm', **k2)
    ctx.check(got.name == 'nm' and got.model_tdep is None, 'static model')
    ctx.hit('static')
    want = s[0, 0].copy()
    want[:nmin ** 2 - 1] = 0
    ctx.describe(n_tdep=nt, n_static=ns, leap=ly)
    ctx.close(ctx.call(got.synth_coeffs_static), want, 0.51e-8,
              'static coefficients')


def sampled(ctx):
    """from_shc of files with any step >= order-1 per break, trailing samples, written by our own writer"""
    order = ctx.int(2, 6)
    step = order - 1 + ctx.pick(0, 1, 2, 4)
    if step > order - 1:
        ctx.hit('step > order-1')
    brk = spline_model(ctx, order)
    if brk[0] < -100000:
        brk = brk + 200000
    n = ctx.int(1, 3)
    nmin = ctx.pick(1, 1, n)
    co = G.continuous_pp(ctx, order, brk, n * (n + 2), 100.)
    ly = ctx.chance(0.5)
    t = np.concatenate([np.linspace(a, b, step, endpoint=False)
                        for a, b in zip(brk[:-1], brk[1:])] + [brk[-1:]])
    tail = []
    if ctx.chance(0.3) and step > 1:
        ctx.hit('trailing samples')
        tail = brk[-1] + np.arange(1, ctx.int(1, step - 1) + 1) * 10.0
    years = np.array([float(R.mjd_to_dyear(x, ly)) for x in np.r_[t, tail]])
    vals = np.r_[expected(brk, co, t), ctx.rng.normal(
        size=(len(tail), n * (n + 2)))]
    idx = R.coeff_index(nmin, n, n)
    path = ctx.path('own.shc')
    with open(path, 'w') as f:
        f.write(f'# own\n{nmin} {n} {len(years)} {order} {step}\n')
        f.write(' '.join(f'{y:.11f}' for y in years) + '\n')
        for k, (a, b) in enumerate(idx):
            f.write(f'{a} {b} ' + ' '.join(
                f'{float(v):.10f}' for v in vals[:, nmin ** 2 - 1 + k]) + '\n')
    ctx.describe(order=order, step=step, breaks=brk, nmin=nmin, nmax=n)
    m = ctx.call(cp.chaos.BaseModel.from_shc, path, leap_year=ly)
    ctx.close(m.breaks, brk, 1e-6, 'breaks')
    tt = check_times(ctx, brk, 5)
    want = expected(brk, co, tt)
    want[:, :nmin ** 2 - 1] = 0
    ctx.close(ctx.call(m.synth_coeffs, tt), want, 1e-3, 'sampled model')


FAMILIES = [Family('table', table, 3200, 32000),
            Family('foreign', foreign, 2400, 24000),
            Family('roundtrip', roundtrip, 4800, 40000),
            Family('static_part', static_part, 600, 4000),
            Family('sampled', sampled, 2000, 20000)]
