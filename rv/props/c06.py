"""C06: B-spline tools agree with the B-spline definition."""
import numpy as np

from ..core import cp, Family
from .. import refs as R, gens as G

mu = cp.model_utils
REQUIRED = ['repeated interior knot', 'uniform', 'irregular', 'x at last knot',
            'x at first knot', 'x on interior knot', 'deriv >= order',
            'order 1', 'order 6', 'outside knots', 'continuous repeated',
            'one column', 'other column count']


def knot_vector(ctx, order, repeated=True):
    """Breaks and augmented knots, possibly with repeated interior knots."""
    pieces = ctx.pick(1, 2, 3, 5, 9)
    if ctx.chance(0.02):
        ctx.hit('many pieces')
        pieces = ctx.pick(31, 64, 130)
    brk = G.breaks(ctx, pieces)
    if ctx.chance(0.05):
        ctx.hit('close breaks')
        brk = ctx.uni(-10, 10) + np.cumsum(10 ** ctx.uni(-5, 2, pieces + 1))
    ctx.hit('uniform' if np.ptp(np.diff(brk)) < 1e-9 else 'irregular')
    inner = []
    for b in brk[1:-1]:
        k = 1
        if repeated and order > 1 and ctx.chance(0.25):
            k = ctx.int(1, order)
        if k > 1:
            ctx.hit('repeated interior knot')
            if k < order:
                ctx.hit('continuous repeated')
        inner += [b] * k
    full = np.r_[[brk[0]] * order, inner, [brk[-1]] * order]
    return brk, full


def spline_deriv_scale(knots, order, deriv):
    h = np.diff(np.unique(knots)).min()
    return (2.0 * order / h) ** deriv


def colloc(ctx):
    """colloc_matrix against the Cox-de Boor recursion; partition of unity, non-negativity, zero rows outside"""
    order = ctx.int(1, 6) if ctx.chance(0.85) else ctx.int(7, 10)
    ctx.hit(f'order {order}')
    brk, knots = knot_vector(ctx, order, ctx.chance(0.6))
    n = ctx.pick(1, 2, 6, 12)
    if ctx.chance(0.01):
        n = ctx.pick(100, 400)
    x = G.times_in(ctx, brk, n)
    if np.any(x == brk[-1]):
        ctx.hit('x at last knot')
    if np.any(x == brk[0]):
        ctx.hit('x at first knot')
    if np.any(np.isin(x, brk[1:-1])):
        ctx.hit('x on interior knot')
    deriv = ctx.pick(None, 0, 0, 1, 2, order - 1, order, order + 2,
                     ctx.int(0, order))
    d = deriv or 0
    kw = {} if deriv is None and ctx.chance(0.5) else dict(deriv=deriv)
    if d >= order:
        ctx.hit('deriv >= order')
    ctx.describe(x=x, knots=knots, order=order, deriv=deriv)
    A = ctx.call(mu.colloc_matrix, x, knots, order, **kw)
    nb = knots.size - order
    want = np.array([R.bspline_row(knots, order, t, d) for t in x])
    sc = spline_deriv_scale(knots, order, d)
    ctx.close(A, want.reshape(n, nb), 1e-11 * sc + 1e-300, 'colloc_matrix')
    if d == 0:
        ctx.check(np.all(A >= -1e-13), 'colloc_matrix: negative values')
        ctx.close(A.sum(axis=1), np.ones(n), 1e-11, 'partition of unity')
    elif d < order:
        ctx.close(A.sum(axis=1), np.zeros(n), 1e-10 * sc,
                  'derivative of the partition of unity')


def augment(ctx):
    """augment_breaks adds order-1 copies of both ends to any 1-D sequence and rejects 2-D input"""
    order = ctx.int(1, 7)
    brk = G.breaks(ctx, ctx.int(1, 8))
    arg = ctx.pick(brk, brk.tolist(), tuple(brk))
    ctx.describe(breaks=brk, order=order)
    got = ctx.call(mu.augment_breaks, arg, order)
    want = np.r_[[brk[0]] * (order - 1), brk, [brk[-1]] * (order - 1)]
    ctx.equal(np.asarray(got, dtype=float), want, 'augment_breaks')
    if ctx.chance(0.2):
        ctx.rejects(mu.augment_breaks, brk[None, :], order, exc=ValueError)


def pp_spline(ctx):
    """pp_from_bspline and BaseModel.from_bspline against sum_j c_j B_j(t) and its derivatives"""
    # SciPy cannot convert orders above 8 (its from_spline crashes)
    order = ctx.int(1, 6) if ctx.chance(0.85) else ctx.int(7, 8)
    brk, knots = knot_vector(ctx, order)
    nb = knots.size - order
    nmax = ctx.int(9, 20) if ctx.chance(0.02) else ctx.int(1, 3)
    dim = nmax * (nmax + 2)
    if ctx.chance(0.3):
        # pp_from_bspline takes any number of columns
        dim = ctx.pick(1, 1, 2, ctx.int(4, 9))
        ctx.hit('one column' if dim == 1 else 'other column count')
    c = ctx.rng.normal(size=(nb, dim)) * ctx.pick(1.0, 1e4, 1e-3)
    if ctx.chance(0.3):
        e = np.zeros_like(c)
        e[ctx.int(0, nb - 1), ctx.int(0, dim - 1)] = 1.0
        c = e
    amp = np.abs(c).max()
    pp, b = ctx.call(mu.pp_from_bspline, c, knots, order)
    ctx.equal(np.asarray(b), np.unique(brk), 'pp_from_bspline breaks')
    ctx.check(np.shape(pp) == (order, brk.size - 1, dim),
              f'pp_from_bspline shape {np.shape(pp)}')
    is_model = dim in (3, 8, 15) or dim > 15
    if is_model:
        m = ctx.call(cp.chaos.BaseModel.from_bspline, 'x', knots, c, order,
                     source='external')
        ctx.check(m.source == 'external' and m.order == order and
                  m.pieces == brk.size - 1, 'from_bspline attributes')
    ctx.describe(knots=knots, order=order, coeffs=c)
    t = G.times_in(ctx, brk, 6)
    for d in range(0, order + 1):
        want = np.array([R.bspline_row(knots, order, x, d) @ c for x in t])
        val = np.array([R.pp_eval(np.asarray(b), np.asarray(pp), x, d)[0]
                        for x in t]) / R.LD('365.25') ** d
        sc = spline_deriv_scale(knots, order, d) * amp
        # at a knot the highest derivatives are one-sided (right)
        ctx.close(val, want, 3e-9 * sc, f'pp_from_bspline, derivative {d}')
        if not is_model:
            continue
        got = ctx.call(m.synth_coeffs, t, deriv=d)
        ctx.close(got, want * R.LD('365.25') ** d, 3e-9 * sc * 365.25 ** d,
                  f'from_bspline model, derivative {d}')


def outside(ctx):
    """basis functions vanish outside the knots (or are NaN: not a number there), and colloc @ c equals the model inside"""
    order = ctx.int(1, 5)
    brk, knots = knot_vector(ctx, order)
    nb = knots.size - order
    dim = 3
    c = ctx.rng.normal(size=(nb, dim))
    t = G.times_in(ctx, brk, 5)
    A = ctx.call(mu.colloc_matrix, t, knots, order)
    m = ctx.call(cp.chaos.BaseModel.from_bspline, 'x', knots, c, order)
    got = ctx.call(m.synth_coeffs, t)
    ctx.close(A @ c, got, 1e-9, 'colloc @ c versus from_bspline')
    ctx.describe(knots=knots, order=order, time=t)
    # a spline fitted on well-chosen sites is recovered
    if not any(np.count_nonzero(knots == b) > 1 for b in brk[1:-1]):
        x = np.sort(np.concatenate([np.linspace(a, b, order + 2)
                                    for a, b in zip(brk[:-1], brk[1:])]))
        M = ctx.call(mu.colloc_matrix, x, knots, order)
        y = np.asarray(m.synth_coeffs(x))
        if order == 1:
            return
        sol = np.linalg.lstsq(M, y, rcond=None)[0]
        if np.linalg.cond(M) < 1e6:
            ctx.close(sol, c, 1e-7, 'recovered spline coefficients')
    o = np.array([brk[0] - 1.0, brk[-1] + 1.0])
    ctx.hit('outside knots')
    A = ctx.call(mu.colloc_matrix, o, knots, order)
    ctx.check(np.all(np.isnan(A) | (A == 0)), 'non-zero basis function '
              'outside the knots')


FAMILIES = [Family('colloc', colloc, 16000, 160000),
            Family('augment', augment, 1200, 8000),
            Family('pp_spline', pp_spline, 6000, 60000),
            Family('outside', outside, 2400, 24000)]
