"""C09: text-format model loaders reproduce the numbers of the file."""
import numpy as np

from ..core import cp, Family
from .. import refs as R, gens as G

REQUIRED = ['wrapped', 'one line', 'D exponents', 'negative years', 'order 3',
            'order 6', 'irregular knots', 'repeated end knots', 'evaluated at '
            'epoch', 'in the SV period', 'name given', 'comments',
            'first derivative', 'epochs within the year',
            'comments between rows']


def wrap(ctx, vals, fmt):
    """Numbers in lines of random length."""
    u = ctx.int(0, 2)
    if u == 0:
        ctx.hit('one line')
        return ' '.join(fmt(v) for v in vals) + '\n'
    ctx.hit('wrapped')
    out, i = [], 0
    while i < len(vals):
        k = ctx.pick(1, 4, 5) if u == 1 else ctx.int(1, 7)
        out.append(ctx.pick('', ' ', '   ') + '  '.join(
            fmt(v) for v in vals[i:i + k]) + ctx.pick('', ' '))
        i += k
    return '\n'.join(out) + '\n'


def evaluate(ctx, m, knots_dy, order, data, n, what):
    """Model against the spline of the file on the knots of the file."""
    dy = lambda y: float(R.dyear_to_mjd(y, False))        # noqa: E731
    k = np.array([dy(y) for y in knots_dy])
    ctx.check(m.source == 'internal' and m.order == order and m.nmax == n,
              f'{what}: source {m.source}, order {m.order}, nmax {m.nmax}')
    ctx.close(m.breaks, np.unique(k), 1e-6, what + ' breaks')
    t = np.r_[G.times_in(ctx, np.unique(k), 4), ctx.uni(k[0], k[-1], 4)]
    amp = np.abs(data).max()
    got = ctx.call(m.synth_coeffs, t)
    B = np.array([R.bspline_row(k, order, x) for x in t])
    ctx.close(got, B @ data, 1e-9 * amp, what)
    if order > 2:
        ctx.hit('first derivative')
        got = ctx.call(m.synth_coeffs, t, deriv=1)
        B = np.array([R.bspline_row(k, order, x, 1) for x in t])
        h = np.diff(np.unique(k)).min()
        ctx.close(got, B @ data * R.LD('365.25'), 1e-8 * amp * 365.25 / h,
                  what + ' secular variation')


def draw(ctx, order):
    n = ctx.int(1, 4)
    nspl = order + ctx.int(1, 8)
    if ctx.chance(0.01):
        ctx.hit('large file')
        n, nspl = ctx.pick(8, 10, 14), ctx.pick(20, 63, 160)
    lo = ctx.pick(1600., 1840., -5000., 1582.5)
    if lo < 0:
        ctx.hit('negative years')
    if ctx.chance(0.5):
        knots = lo + ctx.pick(2.0, 2.5, 5.0) * np.arange(nspl + order)
    else:
        ctx.hit('irregular knots')
        knots = lo + np.cumsum(np.round(ctx.uni(0.5, 60, nspl + order), 2))
    if ctx.chance(0.2) and nspl > order:
        ctx.hit('repeated end knots')
        knots[:order] = knots[order - 1]
        knots[-order:] = knots[-order]
    data = ctx.rng.normal(size=(nspl, n * (n + 2))) * 10 ** ctx.uni(-3, 4)
    return n, nspl, knots, data


def number(ctx, d=False):
    p = ctx.pick(8, 15)

    def fmt(v):
        s = f'{v:.{p}E}' if abs(v) < 1e5 or d else repr(float(v))
        return s.replace('E', 'D') if d else s
    return fmt, (lambda v: float(fmt(v).replace('D', 'E')))


def rounded(data, rd):
    return np.array([rd(v) for v in data.ravel()]).reshape(data.shape)


def open_name(ctx, stem, default):
    """path, name argument and expected name"""
    if default != 'CALS7K.2' and ctx.chance(0.5):
        ctx.hit('dots in the name')
        default = ctx.pick('COV-OBS.x1', 'model.v2.final', 'a.b', 'data.t',
                           'text.x')
        stem = default + ctx.pick('.txt', '.dat')
    path = ctx.path(stem)
    if ctx.chance(0.3):
        ctx.hit('name given')
        return path, dict(name='my name'), 'my name'
    return path, {}, default


def covobs(ctx):
    """load_CovObs_txtfile against the spline on the knots of the file"""
    order = ctx.int(2, 6)
    ctx.hit(f'order {order}')
    n, nspl, knots, data = draw(ctx, order)
    path, kw, name = open_name(ctx, 'COV-OBS.x2-int', 'COV-OBS')
    fmt, rd = number(ctx)
    with open(path, 'w') as f:
        f.write('COV-OBS test 1 2 3\n')
        f.write(f'  {n} {nspl} {order}  ' + ' '.join(
            f'{y:.2f}' for y in knots) + '\n')
        f.write(wrap(ctx, data.ravel(), fmt))
    m = ctx.call(cp.load_CovObs_txtfile, path, **kw)
    ctx.equal(m.name, name, 'name')
    ctx.describe(nmax=n, order=order, knots=knots)
    evaluate(ctx, m, np.round(knots, 2), order, rounded(data, rd), n, 'CovObs')


def gufm(ctx):
    """load_gufm1_txtfile against the cubic spline on the knots of the file"""
    n, nspl, knots, data = draw(ctx, 4)
    path, kw, name = open_name(ctx, 'gufm1', 'gufm1')
    fmt, rd = number(ctx)
    with open(path, 'w') as f:
        f.write('gufm1 title 4 5 6\n')
        f.write(f' {n} {nspl}' + ctx.pick('\n', ' '))
        f.write(wrap(ctx, np.round(knots, 2), lambda v: f'{v:.2f}'))
        f.write(wrap(ctx, data.ravel(), fmt))
    m = ctx.call(cp.load_gufm1_txtfile, path, **kw)
    ctx.equal(m.name, name, 'name')
    ctx.describe(nmax=n, knots=knots)
    evaluate(ctx, m, np.round(knots, 2), 4, rounded(data, rd), n, 'gufm1')


def cals7k(ctx):
    """load_CALS7K_txtfile against the cubic spline on the knots of the file, Fortran exponents included"""
    n, nspl, knots, data = draw(ctx, 4)
    path, kw, name = open_name(ctx, 'CALS7K.2', 'CALS7K.2')
    d = ctx.chance(0.6)
    if d:
        ctx.hit('D exponents')
    fmt, rd = number(ctx, d)
    kn = np.round(knots, 2)
    with open(path, 'w') as f:
        f.write(f'{fmt(kn[3])} {fmt(kn[-4])}\n 4 {ctx.int(0, 9)}  {n} '
                f'{ctx.int(0, 9)} {nspl}\n')
        f.write(wrap(ctx, kn, lambda v: (f'{v:.12E}'.replace(
            'E', 'D') if d else f'{v:.2f}')))
        f.write(wrap(ctx, data.ravel(), fmt))
    m = ctx.call(cp.load_CALS7K_txtfile, path, **kw)
    ctx.equal(m.name, name, 'name')
    ctx.describe(nmax=n, knots=knots, D=d)
    evaluate(ctx, m, kn, 4, rounded(data, rd), n, 'CALS7K')


def igrf(ctx):
    """load_IGRF_txtfile against linear interpolation between calendar-year epochs and 5 years of secular variation"""
    n = ctx.int(1, 6)
    ne = ctx.int(1, 7)
    if ctx.chance(0.02):
        ctx.hit('large file')
        n, ne = ctx.pick(10, 13, 15), ctx.pick(1, 12, 25)
    first = ctx.pick(1900, 1985, 2000, 1700)
    step = ctx.pick(5, 5, 10, 1)
    ep = first + step * np.arange(ne)
    if ctx.chance(0.25):
        ctx.hit('epochs within the year')
        ep = first + np.cumsum(ctx.pick(0.5, 2.5, 5.0, 7.5, 1.25)
                               * ctx.rng.integers(1, 4, ne))
    idx = R.coeff_index(1, n, n)
    data = np.round(ctx.rng.normal(size=(len(idx), ne)) * 1e4, 2)
    sv = np.round(ctx.rng.normal(size=len(idx)) * 50, 2)
    path, kw, name = open_name(ctx, 'igrf13coeffs.txt', 'igrf13coeffs')
    sep = ctx.pick(' ', '   ', '\t')
    mid = ctx.chance(0.3)
    with open(path, 'w') as f:
        for _ in range(ctx.int(0, 3)):
            ctx.hit('comments')
            f.write(ctx.pick('', '', ' ', '\t')
                    + '# Spherical harmonic coefficients 1 2 3\n')
        cs = ctx.pick(True, False)
        if cs:
            f.write('c/s deg ord ' + ' '.join(['DGRF'] * ne + ['SV']) + '\n')
        f.write(sep.join(['g/h', 'n', 'm'] + [
            f'{y:.1f}' if y % 0.5 == 0 else f'{y:.2f}' for y in ep] + [
            f'{int(ep[-1])}-{int(ep[-1] + 5) % 100:02d}']) + '\n')
        for (k, mm), row, s in zip(idx, data, sv):
            if mid and ctx.chance(0.2):
                ctx.hit('comments between rows')
                f.write(ctx.pick('', ' ') + f'# degree {k} 1.0 2.0\n')
            f.write(sep.join(['g' if mm >= 0 else 'h', str(k), str(abs(mm))] +
                             [f'{v:.2f}' for v in row] + [f'{s:.2f}']) + '\n')
    m = ctx.call(cp.load_IGRF_txtfile, path, **kw)
    ctx.equal(m.name, name, 'name')
    ctx.check(m.order == 2 and m.nmax == n and m.source == 'internal',
              'IGRF order, nmax, source')
    days = np.array([float(R.dyear_to_mjd(float(y), True))
                     for y in np.r_[ep, ep[-1] + 5]])
    ctx.close(m.breaks, days, 1e-9, 'IGRF epochs')
    full = np.c_[data, data[:, -1] + 5 * sv]
    t = np.r_[days, ctx.uni(days[0], days[-1], 6),
              ctx.uni(days[-2], days[-1], 2)]
    ctx.hit('evaluated at epoch', 'in the SV period')
    want = np.empty((t.size, len(idx)))
    slope = np.empty_like(want)
    for i, x in enumerate(t):
        k = min(int(np.searchsorted(days, x, side='right')) - 1,
                days.size - 2)
        w = (x - days[k]) / (days[k + 1] - days[k])
        want[i] = (1 - w) * full[:, k] + w * full[:, k + 1]
        slope[i] = (full[:, k + 1] - full[:, k]) / (days[k + 1] - days[k])
    ctx.describe(nmax=n, epochs=ep)
    ctx.close(ctx.call(m.synth_coeffs, t), want, 1e-7, 'IGRF coefficients')
    ctx.close(ctx.call(m.synth_coeffs, t, deriv=1), slope * 365.25, 1e-7,
              'IGRF secular variation')


FAMILIES = [Family('covobs', covobs, 3200, 32000),
            Family('gufm', gufm, 2000, 20000),
            Family('cals7k', cals7k, 2000, 20000),
            Family('igrf', igrf, 3200, 32000)]
