"""C04: vectorised and gridded evaluation equals point-by-point evaluation."""
import numpy as np

from ..core import cp, Family
from .. import refs as R, gens as G

mu, cu, du = cp.model_utils, cp.coordinate_utils, cp.data_utils
REQUIRED = ['several vectors per position', 'broadcast', '0-d batch', 'strided', 'fortran', 'float32', 'int',
            'grid', 'pole in batch', 'time outside in batch',
            'single point inside, batch outside', 'python scalar',
            'multi-dim grid time', 'stacked grid', 'RC from the file',
            'large batch', 'large grid', 'missing value and pole',
            'missing value and time outside', 'arrays of many elements',
            'missing value in a conversion']


def subshape(ctx, shape):
    """A shape that broadcasts against `shape` (not beyond it)."""
    s = tuple(1 if ctx.chance(0.3) else k for k in shape)
    if ctx.chance(0.3):
        s = s[ctx.int(0, len(s)):]
    return s


def relayout(ctx, a, dtypes=True):
    """Same values in another container or memory layout."""
    u = ctx.int(0, 7)
    if a.ndim and u == 0:
        ctx.hit('fortran')
        return np.asfortranarray(a)
    if a.ndim and u == 1:
        ctx.hit('strided')
        b = np.empty(tuple(2 * k for k in a.shape), dtype=a.dtype)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    if a.ndim and u == 2:
        ctx.hit('strided')
        return a[::-1].copy()[::-1]
    if a.ndim == 0 and u < 4:
        ctx.hit('python scalar')
        return float(a)
    if dtypes and u == 5:
        f = a.astype(np.float32)
        if np.array_equal(f, a):
            ctx.hit('float32')
            return f
    if dtypes and u == 6:
        f = a.astype(int)
        if np.array_equal(f, a):
            ctx.hit('int')
            return f
    return a


def batch(ctx, gens, dtypes, big=None):
    """Base shape and one array per generator with compatible shapes."""
    shape = ctx.pick((), (1,), (4,), (2, 3), (3, 1, 2), (1, 1))
    if ctx.chance(0.03):
        ctx.hit('large batch')
        k = ctx.pick(100, 257, 1000, 1025, 2500, 3001) if big is None else big
        shape = ctx.pick((k,), (k,), (k // 50, 50), (k // 10, 1, 10), (3, k))
    if shape == ():
        ctx.hit('0-d batch')
    arrs = []
    for g in gens:
        s = subshape(ctx, shape)
        n = int(np.prod(s)) if s else 1
        a = np.asarray(g(n), dtype=float)
        if n > 1 and ctx.chance(0.2):
            ctx.hit('repeated values')
            a = a[np.zeros(n, dtype=int) if ctx.chance(0.5) else
                  ctx.rng.integers(0, n, n)]
        elif n > 1 and a.ndim == 1 and ctx.chance(0.1):
            ctx.hit('sorted values')
            a = np.sort(a)[::ctx.pick(1, -1)]
        a = a.reshape(s + a.shape[1:])
        if dtypes and ctx.chance(0.4) and a.ndim == len(s):
            a = np.round(a)
        arrs.append(a)
    full = np.broadcast_shapes(*[a.shape for a in arrs])
    if any(a.shape != full for a in arrs):
        ctx.hit('broadcast')
    return full, arrs


def compare(ctx, what, fn, args, full, evaluate, core=0, rtol=1e-10, atol=0.,
            lenient=False):
    """Whole-batch result against single-point evaluations. lenient: outputs
    that depend on some of the arguments only may have their shape."""
    out = ctx.call(fn, *args)
    outs = list(out) if isinstance(out, tuple) else [out]
    for k, o in enumerate(outs):
        s = np.shape(o)
        if lenient:
            try:
                o = np.broadcast_to(o, full + s[len(s) - core:])
            except ValueError:
                ctx.fail(f'{what}[{k}]: shape {s} for batch {full}')
            outs[k], s = o, o.shape
        ctx.check(s[:len(s) - core] == full,
                  f'{what}[{k}]: batch shape {s[:len(s) - core]}, expected '
                  f'{full}')
    idx = list(np.ndindex(full))
    pick = idx if len(idx) <= 4 else [idx[i] for i in ctx.rng.choice(
        len(idx), 4, replace=False)]
    if len(idx) > 60:
        pick += [idx[0], idx[-1], idx[len(idx) // 2]]
    for i in pick:
        ref = evaluate(i)
        ref = ref if isinstance(ref, tuple) else (ref,)
        ctx.check(len(ref) == len(outs), f'{what}: number of outputs')
        for k, (o, r) in enumerate(zip(outs, ref)):
            o = np.asarray(o)[i] if full else np.asarray(o)
            r = np.asarray(r).reshape(np.shape(o))
            mag = np.nanmax(np.abs(np.asarray(r, float))) if r.size and \
                not np.all(np.isnan(r)) else 0.0
            ctx.close(o, r, rtol * mag + atol + 1e-300,
                      f'{what}[{k}] at {i} versus the single point')


def bc(a, full, i):
    """Element of a broadcast array, as 0-d array."""
    return np.array(np.broadcast_to(a, full)[i])


def field_gens(ctx, poles=True):
    return (lambda n: G.radii(ctx, n, 6371.2),
            lambda n: G.thetas(ctx, n, poles=poles and ctx.chance(0.6)),
            lambda n: G.phis(ctx, n))


def field(ctx):
    """synth_values and design_gauss on broadcast shapes, layouts, dtypes, batches with and without poles"""
    n = ctx.int(1, 6)
    nmin = ctx.int(1, n) if ctx.chance(0.3) else 1
    index = R.coeff_index(nmin, n, n)
    full, (r, th, ph) = batch(ctx, field_gens(ctx), True, ctx.pick(
        None, 4097, 10001, 70000) if n < 3 else None)
    cs = subshape(ctx, full)
    c = ctx.rng.normal(size=cs + (len(index),))
    src = ctx.pick('internal', 'external')
    fullc = np.broadcast_shapes(full, cs)
    if np.any((th == 0) | (th == 180)):
        ctx.hit('pole in batch')
    a = [relayout(ctx, v) for v in (r, th, ph)]
    if ctx.chance(0.6):
        def fn(r, th, ph):
            return mu.synth_values(c, r, th, ph, source=src, nmin=nmin)

        def one(i):
            return mu.synth_values(np.broadcast_to(c, fullc + c.shape[-1:])[i],
                                   *(bc(v, fullc, i) for v in (r, th, ph)),
                                   source=src, nmin=nmin)
        compare(ctx, 'synth_values', fn, a, fullc, one, atol=1e-9)
    else:
        def fn(r, th, ph):
            return mu.design_gauss(r, th, ph, n, nmin=nmin, source=src)

        def one(i):
            return mu.design_gauss(*(bc(v, full, i) for v in (r, th, ph)), n,
                                   nmin=nmin, source=src)
        compare(ctx, 'design_gauss', fn, a, full, one, core=1, atol=1e-9)
    ctx.describe(r=np.asarray(r), theta=np.asarray(th), phi=np.asarray(ph),
                 coeffs=c, source=src)


def grid(ctx):
    """grid=True equals the explicit outer grid for radius, time and coefficient axes"""
    n = ctx.int(1, 5)
    a, b = ctx.int(1, 4), ctx.int(1, 5)
    if ctx.chance(0.03):
        ctx.hit('large grid')
        a, b = ctx.pick((90, 181), (181, 10), (4, 721), (320, 3))
    th, ph = G.thetas(ctx, a), G.phis(ctx, b)
    ctx.hit('grid')
    lead = ctx.pick((), (3,), (2, 2))
    rs = ctx.pick((), (1,), (a, 1), (1, b), (a, b), lead + (1, 1))
    r = G.radii(ctx, int(np.prod(rs)) if rs else 1, 6371.2).reshape(rs)
    thv = relayout(ctx, th)
    kind = ctx.int(0, 2)
    cs = ctx.pick((), (a, b), lead + (1, 1), (b,), (a, 1))
    c = ctx.rng.normal(size=cs + (n * (n + 2),))
    src = ctx.pick('internal', 'external')
    ctx.describe(theta=th, phi=ph, radius=r, lead=str(lead))
    if kind == 0:
        got = ctx.call(mu.synth_values, c, r, thv, ph, source=src, grid=True)
        want = mu.synth_values(c, r, th[:, None], ph[None, :], source=src,
                               grid=False)
        shp = np.broadcast_shapes(rs, cs, (a, b))
    else:
        order = ctx.int(1, 4)
        brk = G.breaks(ctx, ctx.int(1, 4))
        co = G.pp_coeffs(ctx, order, brk, n * (n + 2), 1.0)
        ts = ctx.pick((), lead + (1, 1), (a, b), (1,))
        if len(ts) > 2:
            ctx.hit('multi-dim grid time')
        t = G.times_in(ctx, brk, int(np.prod(ts)) if ts else 1,
                       0.2).reshape(ts)
        shp = np.broadcast_shapes(rs, ts, (a, b))
        if kind == 1:
            m = ctx.call(cp.chaos.BaseModel, 'x', brk, order, co, source=src)
            got = ctx.call(m.synth_values, t, r, thv, ph, grid=True)
            want = m.synth_values(np.broadcast_to(t, shp),
                                  np.broadcast_to(r, shp), th[:, None], ph)
        else:
            t = np.clip(t, brk[0], brk[-1])
            got = ctx.call(mu.synth_from_pp, brk, order, co, t, r, thv, ph,
                           source=src, grid=True)
            want = mu.synth_from_pp(brk, order, co, np.broadcast_to(t, shp),
                                    np.broadcast_to(r, shp), th[:, None], ph,
                                    source=src)
    for g, w in zip(got, want):
        w = np.broadcast_to(w, shp)
        ctx.close(g, w, 1e-9 * (np.abs(w).max() + 1), 'grid')
        # and one explicit grid node
    i = tuple(ctx.int(0, k - 1) for k in shp)
    if kind == 0:
        one = mu.synth_values(np.broadcast_to(c, shp + c.shape[-1:])[i],
                              np.broadcast_to(r, shp)[i], th[i[-2]], ph[i[-1]],
                              source=src)
        for g, w in zip(got, one):
            ctx.close(np.asarray(g)[i], w, 1e-9 * (np.abs(np.max(g)) + 1),
                      'grid node')


def stacked_grid(ctx):
    """grid=True with stacks of theta and phi vectors: outer product over the last axis of each"""
    n = ctx.int(1, 4)
    lead = ctx.pick((2,), (3,), (2, 2), (1,), (4,))
    a = ctx.int(1, 4)
    b = a if ctx.chance(0.4) else ctx.int(1, 4)
    if ctx.chance(0.3):       # equally many vectors and points
        a = b = lead[-1]
    lt = lead if ctx.chance(0.6) else ctx.pick((), (1,) * len(lead))
    lp = lead if ctx.chance(0.6) else ctx.pick((), (1,) * len(lead))
    th = G.thetas(ctx, int(np.prod(lt + (a,)))).reshape(lt + (a,))
    ph = G.phis(ctx, int(np.prod(lp + (b,)))).reshape(lp + (b,))
    full = np.broadcast_shapes(lt, lp) + (a, b)
    rs = ctx.pick((), (a, b), full, full[:-2] + (1, 1))
    r = G.radii(ctx, int(np.prod(rs)) if rs else 1, 6371.2).reshape(rs)
    cs = ctx.pick((), (a, b), full[:-2] + (1, 1))
    c = ctx.rng.normal(size=cs + (n * (n + 2),))
    src = ctx.pick('internal', 'external')
    full = np.broadcast_shapes(full, rs, cs)
    ctx.hit('stacked grid')
    ctx.describe(theta=th, phi=ph, radius=r)
    if ctx.chance(0.7):
        got = ctx.call(mu.synth_values, c, r, th, ph, source=src, grid=True)
    else:
        c = c.reshape(-1, n * (n + 2))[0]
        cs = ()
        m = ctx.call(cp.chaos.BaseModel, 'x', np.array([0., 1.]), 1,
                     c[None, None], source=src)
        got = ctx.call(m.synth_values, 0.5, r, th, ph, grid=True)
        full = np.broadcast_shapes(np.broadcast_shapes(lt, lp) + (a, b), rs)
    for g in got:
        ctx.check(np.shape(g) == full, f'stacked grid: shape {np.shape(g)}, '
                  f'expected {full}')
    for _ in range(4):
        i = tuple(ctx.int(0, k - 1) for k in full)
        one = mu.synth_values(
            np.broadcast_to(c, full + c.shape[-1:])[i],
            np.broadcast_to(r, full)[i],
            np.broadcast_to(th[..., :, None], full)[i],
            np.broadcast_to(ph[..., None, :], full)[i], source=src)
        for g, w in zip(got, one):
            ctx.close(g[i], w, 1e-9 * (np.abs(g).max() + 1),
                      'stacked grid node')


def model(ctx):
    """BaseModel.synth_coeffs/synth_values on time arrays: each time as if evaluated alone (batch mixes inside/outside)"""
    n = ctx.int(1, 3)
    order = ctx.int(1, 6)
    brk = G.breaks(ctx, ctx.int(1, 5))
    co = G.pp_coeffs(ctx, order, brk, n * (n + 2), 1.0)
    m = ctx.call(cp.chaos.BaseModel, 'x', brk, order, co,
                 source=ctx.pick('internal', 'external'))
    out = ctx.pick(0.0, 0.3)
    ext = ctx.pick(None, 'linear', 'quadratic', 'cubic', 'constant', 'spline',
                   'off', True, False, 3)
    deriv = ctx.int(0, order)
    gens = (lambda k: G.times_in(ctx, brk, k, out),) + field_gens(ctx)
    full, (t, r, th, ph) = batch(ctx, gens, False)
    ins = (t >= brk[0]) & (t <= brk[-1])
    if not ins.all():
        ctx.hit('time outside in batch')
        if ins.any():
            ctx.hit('single point inside, batch outside')
    ctx.describe(breaks=brk, order=order, time=t, extrapolate=str(ext),
                 deriv=deriv)
    if ctx.chance(0.5):
        compare(ctx, 'synth_coeffs', lambda t: m.synth_coeffs(
            t, deriv=deriv, extrapolate=ext), [relayout(ctx, t, False)],
            t.shape, lambda i: m.synth_coeffs(
                np.array(t[i]), deriv=deriv, extrapolate=ext), core=1,
            rtol=1e-9, atol=1e-12)
    else:
        compare(ctx, 'BaseModel.synth_values', lambda t, r, th, ph:
                m.synth_values(t, r, th, ph, deriv=deriv, extrapolate=ext),
                [t] + [relayout(ctx, v) for v in (r, th, ph)], full,
                lambda i: m.synth_values(*(bc(v, full, i) for v in (
                    t, r, th, ph)), deriv=deriv, extrapolate=ext), rtol=1e-8,
                atol=1e-9)


def chaos(ctx):
    """CHAOS call and external-field methods on broadcast shapes"""
    spec = G.chaos_spec(ctx)
    m = G.build_chaos(ctx, spec)
    b = spec['breaks']
    gens = (lambda k: ctx.uni(b[0] - 20, b[-1] + 20, k),) + field_gens(ctx)
    full, (t, r, th, ph) = batch(ctx, gens, False)
    what = ctx.int(0, 5)
    if what == 5:
        ctx.hit('RC from the file')
        path = ctx.path('rc.' + ctx.pick('dat', 'h5'))
        (G.write_rc_h5 if path.endswith('h5') else G.write_rc_dat)(
            path, G.rc_table(ctx, b[0] - 25, b[-1] + 25))
        cp.basicConfig['file.RC_index'] = path
        src = ctx.pick(None, ['sm'], 'external', 'internal')
        part = ctx.int(0, 2)
        ctx.describe(time=t, radius=r, theta=th, phi=ph, part=part)
        if part == 0:
            src = ctx.pick('internal', 'external')

            def fn(t):
                return m.synth_coeffs_sm(t, source=src)
            compare(ctx, 'synth_coeffs_sm', fn, [relayout(ctx, t, False)],
                    t.shape, lambda i: fn(np.array(t[i])), core=1, atol=1e-10)
            return

        def fn(t, r, th, ph):
            if part == 1:
                return m.synth_values_sm(t, r, th, ph)
            return m(t, r, th, ph, source_list=src)
        nt = 'RC file'
    elif what == 0:
        rc = ctx.rng.normal(size=2) * 20
        src = ctx.pick(None, 'internal', 'external', ['gsm'], ['sm', 'tdep'])

        def fn(t, r, th, ph):
            return m(t, r, th, ph, rc_e=rc[0], rc_i=rc[1], source_list=src)
        nt, need = 'CHAOS.__call__', full
        if src is not None and list(np.ravel(src)) == ['static']:
            need = None
    elif what == 1:
        src = ctx.pick('all', 'internal', 'external')

        def fn(t, r, th, ph):
            return m.synth_values_gsm(t, r, th, ph, source=src)
        nt = 'synth_values_gsm'
    elif what == 2:
        src = ctx.pick('all', 'internal', 'external')
        rc = ctx.rng.normal(size=t.shape) * 20
        full2 = full

        def fn(t, r, th, ph, rc=rc):
            return m.synth_values_sm(t, r, th, ph, rc_e=rc, rc_i=-rc,
                                     source=src)
        out = ctx.call(fn, t, r, th, ph)
        for i in list(np.ndindex(full))[:3]:
            one = fn(*(bc(v, full, i) for v in (t, r, th, ph)),
                     rc=bc(rc, full, i))
            for o, w in zip(out, one):
                ctx.check(np.shape(o) == full2, 'synth_values_sm: shape '
                          f'{np.shape(o)} expected {full2}')
                ctx.close(o[i], w, 1e-9 * (abs(w) + 1), 'synth_values_sm')
        return
    else:
        src = ctx.pick('internal', 'external')
        rc = float(ctx.rng.normal() * 20)
        name = ctx.pick('gsm', 'sm')

        def fn(t):
            if name == 'gsm':
                return m.synth_coeffs_gsm(t, source=src)
            return m.synth_coeffs_sm(t, source=src, rc=rc)
        ctx.describe(time=t, source=src, part=name)
        compare(ctx, 'synth_coeffs_' + name, fn, [relayout(ctx, t, False)],
                t.shape, lambda i: fn(np.array(t[i])), core=1, atol=1e-10)
        return
    ctx.describe(time=t, radius=r, theta=th, phi=ph, what=nt, source=str(src))
    compare(ctx, nt, fn, [relayout(ctx, v, False) for v in (t, r, th, ph)],
            full,
            lambda i: fn(*(bc(v, full, i) for v in (t, r, th, ph))),
            rtol=1e-9, atol=1e-8)


def missing(ctx):
    """missing values (NaN) in a batch give NaN there and leave the other elements alone, poles and outside times included"""
    n = ctx.int(1, 4)
    k = ctx.int(2, 7)
    what = ctx.pick('synth_values', 'design_gauss', 'synth_coeffs',
                    'BaseModel.synth_values', 'use', 'CHAOS')
    r, th, ph = (g(k) for g in field_gens(ctx))
    src = ctx.pick('internal', 'external')
    c = ctx.rng.normal(size=n * (n + 2))
    brk = G.breaks(ctx, ctx.int(1, 4))
    order = ctx.int(1, 5)
    ext = ctx.pick(None, 'linear', 'quadratic', 'constant', 'spline', 'off')
    t = G.times_in(ctx, brk, k, ctx.pick(0.0, 0.5))
    m = ctx.call(cp.chaos.BaseModel, 'x', brk, order, G.pp_coeffs(
        ctx, order, brk, n * (n + 2), 1.0), source=src)
    if what in ('synth_values', 'design_gauss'):
        args = [r, th, ph]
        fn = (lambda r, th, ph: mu.synth_values(c, r, th, ph, source=src)) \
            if what == 'synth_values' else \
            (lambda r, th, ph: mu.design_gauss(r, th, ph, n, source=src))
    elif what == 'synth_coeffs':
        args = [t]

        def fn(t):
            return m.synth_coeffs(t, extrapolate=ext)
    elif what == 'use':
        args = [off_pole(ctx, k), ph]
        fn = cu.basevectors_use
    elif what == 'CHAOS':
        spec = G.chaos_spec(ctx)
        M = G.build_chaos(ctx, spec)
        rc = ctx.rng.normal(size=k)
        t = ctx.uni(spec['breaks'][0] - 50, spec['breaks'][-1] + 50, k)
        args = [t, r, th, ph, rc]

        def fn(t, r, th, ph, rc):
            return M(t, r, th, ph, rc_e=rc, rc_i=rc)
    else:
        args = [t, r, th, ph]

        def fn(t, r, th, ph):
            return m.synth_values(t, r, th, ph, extrapolate=ext)
    if 'th' in fn.__code__.co_varnames and np.any((th == 0) | (th == 180)):
        ctx.hit('missing value and pole')
    if what in ('synth_coeffs', 'BaseModel.synth_values') and np.any(
            (t < brk[0]) | (t > brk[-1])):
        ctx.hit('missing value and time outside')
    gap = np.zeros(k, dtype=bool)
    gap[ctx.int(0, k - 1)] = True
    hurt = list(args)
    j = ctx.int(0, len(args) - 1)
    hurt[j] = np.where(gap, np.nan, args[j])
    ctx.describe(what=what, argument=j, gap=gap, args=args)
    full = [np.array(a)[~gap] for a in args]
    got, want = ctx.call(fn, *hurt), ctx.call(fn, *full)
    if not isinstance(got, tuple):
        got, want = (got,), (want,)
    lost = np.zeros(len(got), dtype=bool)
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.close(g[~gap], w, 1e-9 * (np.nanmax(np.abs(w)) if np.any(
            ~np.isnan(w)) else 0) + 1e-12, f'{what}[{i}] next to a gap')
        lost[i] = np.any(np.isnan(g[gap]))
    # a uniform field does not depend on the radius
    uniform = src == 'external' and n == 1 and args[j] is r
    ctx.check(uniform or lost.any(), f'{what}: numbers from a missing value')


def off_pole(ctx, n):
    return ctx.uni(3.0, 177.0, n)


def conversions(ctx):
    """Table of (name, function, generators of the arguments, core axes)."""
    tm = (lambda n: ctx.uni(-30000, 30000, n))
    th = (lambda n: off_pole(ctx, n))
    ph = (lambda n: ctx.uni(-179, 179, n))
    any_ = (lambda n: ctx.uni(-1000, 1000, n))
    ref = ctx.pick('gsm', 'sm', 'mag')
    inv = ctx.chance(0.5)
    dip = G.dipole(ctx)
    ly = ctx.chance(0.5)
    return ref, [
        ('sun_position', cu.sun_position, [tm], 0),
        ('zenith_angle', cu.zenith_angle, [tm, th, ph], 0),
        ('spherical_to_cartesian', cu.spherical_to_cartesian,
         [any_, th, ph], 0),
        ('cartesian_to_spherical', cu.cartesian_to_spherical,
         [any_, any_, any_], 0),
        ('center_azimuth', cu.center_azimuth, [any_], 0),
        ('local_time', cu.local_time, [tm, ph], 0),
        ('basevectors_gsm', lambda t: cu.basevectors_gsm(t, dipole=dip), [tm],
         1),
        ('basevectors_sm', lambda t: cu.basevectors_sm(t, dipole=dip), [tm],
         1),
        ('basevectors_use', cu.basevectors_use, [th, ph], 1),
        ('basevectors_gg', cu.basevectors_gg, [th, th], 1),
        ('gg_to_geo', cu.gg_to_geo, [lambda n: ctx.uni(-5, 800, n), th], 0),
        ('gg_to_geo XZ', cu.gg_to_geo, [lambda n: ctx.uni(-5, 800, n), th,
                                        any_, any_], 0),
        ('geo_to_gg', cu.geo_to_gg, [lambda n: ctx.uni(6300, 9000, n), th], 0),
        ('geo_to_gg B', cu.geo_to_gg, [lambda n: ctx.uni(6300, 9000, n), th,
                                       any_, any_], 0),
        ('transform_points', lambda t, p, q: cu.transform_points(
            t, p, q, reference=ref, inverse=inv, dipole=dip), [th, ph, tm], 0),
        ('transform_vectors', lambda t, p, x, y, q: cu.transform_vectors(
            t, p, x, y, q, reference=ref, inverse=inv, dipole=dip),
         [th, ph, any_, any_, tm], 0),
        ('dyear_to_mjd', lambda t: du.dyear_to_mjd(t, leap_year=ly),
         [lambda n: ctx.uni(1000, 3000, n)], 0),
        ('mjd_to_dyear', lambda t: du.mjd_to_dyear(t, leap_year=ly), [tm], 0),
        ('timestamp', lambda t: (du.timestamp(t) - np.datetime64(
            '2000-01-01')) / np.timedelta64(1, 's'), [tm], 0),
    ]


def missing_conversions(ctx):
    """missing values (NaN) among the arguments of a conversion give NaN there and leave the other elements alone"""
    ref, table = conversions(ctx)
    # a time that is not a number has no position of the Sun: it raises
    tm = table[0][2][0]
    table = [row for row in table if row[2] != [tm]]
    name, fn, gens, core = table[ctx.int(0, len(table) - 1)]
    j = ctx.pick(*[i for i, g in enumerate(gens) if g is not tm])
    k = ctx.int(2, 7)
    args = [g(k) for g in gens]
    if ref == 'mag' and name in ('transform_points', 'transform_vectors'):
        args[-1] = np.zeros(())
    gap = np.zeros(k, dtype=bool)
    gap[ctx.int(0, k - 1)] = True
    hurt = list(args)
    hurt[j] = np.where(gap, np.nan, args[j])
    ctx.describe(function=name, argument=j, gap=gap, args=args)
    got = ctx.call(fn, *hurt)
    want = ctx.call(fn, *[a[~gap] if a.ndim else a for a in args])
    if not isinstance(got, tuple):
        got, want = (got,), (want,)
    lost = False
    for i, (g, w) in enumerate(zip(got, want)):
        g, w = np.asarray(g, float), np.asarray(w, float)
        ctx.close(g[~gap], w, 1e-9 * np.max(np.abs(w)) + 1e-9,
                  f'{name}[{i}] next to a gap')
        lost |= np.any(np.isnan(g[gap]))
    ctx.check(lost, f'{name}: numbers from a missing value')
    ctx.hit('missing value in a conversion')


def coordinates(ctx):
    """coordinate_utils and data_utils conversions on broadcast shapes"""
    ref, table = conversions(ctx)
    name, fn, gens, core = table[ctx.int(0, len(table) - 1)]
    full, a = batch(ctx, gens, False, ctx.pick(None, 4097, 20000, 100001))
    if name == 'transform_points' and ref == 'mag':
        full = np.broadcast_shapes(a[0].shape, a[1].shape)
        a[2] = np.zeros(())
    if name == 'transform_vectors' and ref == 'mag':
        a[4] = np.zeros(())
        full = np.broadcast_shapes(*[v.shape for v in a])
    if name in ('geo_to_gg B', 'gg_to_geo XZ', 'transform_vectors'):
        # the position outputs have the shape of the positions only
        a = [np.broadcast_to(v, full).copy() for v in a]
    ctx.hit(name)
    ctx.describe(function=name, args=a)
    compare(ctx, name, fn, [relayout(ctx, v, False) for v in a], full,
            lambda i: fn(*(bc(v, full, i) for v in a)), core=core,
            rtol=1e-9, atol=1e-9, lenient=True)


def nodes(ctx, shape):
    idx = list(np.ndindex(shape))
    return idx if len(idx) < 10 else [idx[0], idx[-1]] + [
        idx[i] for i in ctx.rng.choice(len(idx), 5)]


def vectors_per_position(ctx):
    """Several vectors at each position."""
    ctx.hit('several vectors per position')
    s = ctx.pick((), (1,), (3,), (2, 3))
    k = ctx.int(1, 4)
    n = int(np.prod(s))
    th, ph = off_pole(ctx, n).reshape(s), G.phis(ctx, n).reshape(s)
    x, y = ctx.rng.normal(size=(2, k) + s) * 1000
    h = ctx.uni(-5, 800, n).reshape(s)
    t = ctx.uni(-30000, 30000, n if ctx.chance(0.5) else 1)
    t = t.reshape(s if t.size == n else ())
    ref = ctx.pick('gsm', 'sm', 'mag')
    kw = dict(reference=ref, inverse=ctx.chance(0.5))
    if ref != 'mag':
        kw['time'] = t
    name, fn, m = ctx.pick(
        ('transform_vectors', lambda a, b: cu.transform_vectors(
            th, ph, a, b, **kw), 2),
        ('gg_to_geo', lambda a, b: cu.gg_to_geo(h, th, a, b), 2),
        ('geo_to_gg', lambda a, b: cu.geo_to_gg(h + 6500, th, a, b), 2))
    ctx.describe(function=name, theta=th, phi=ph, x=x, y=y, **kw)
    got = ctx.call(fn, x, y)
    for j in range(k):
        one = fn(x[j], y[j])
        for i, (g, w) in enumerate(zip(got, one)):
            g = np.broadcast_to(g, x.shape)[j] if i < 2 else g[j]
            ctx.close(np.broadcast_to(g, s), np.broadcast_to(w, s), 1e-9,
                      f'{name}: output {i} with several vectors per position')


def stacked(ctx):
    """rotate_gauss, geo_to_base, matrix_geo_to_base, synth_rotate_gauss, power_spectrum on stacks"""
    u = ctx.int(0, 5)
    shape = ctx.pick((1,), (3,), (2, 2))
    if u == 5:
        return vectors_per_position(ctx)
    if ctx.chance(0.03):
        ctx.hit('large stack')
        shape = ctx.pick((300,), (40, 10), (1025,))
    if u == 0:
        Q = np.array([G.random_rotation(ctx) for _ in np.ndindex(shape)])
        Q = Q.reshape(shape + (3, 3))
        n, k = ctx.int(1, 3), ctx.int(1, 3)
        got = ctx.call(cu.rotate_gauss, n, k, *(relayout(
            ctx, Q[..., j, :], False) for j in range(3)))
        ctx.check(np.shape(got) == shape + (n * (n + 2), k * (k + 2)),
                  f'rotate_gauss: shape {np.shape(got)}')
        for i in nodes(ctx, shape):
            one = cu.rotate_gauss(n, k, *(Q[i][j] for j in range(3)))
            ctx.close(got[i], one, 1e-12, 'rotate_gauss stack')
    elif u == 1:
        Q = np.array([G.random_rotation(ctx) for _ in np.ndindex(shape)])
        Q = Q.reshape(shape + (3, 3))
        th, ph = off_pole(ctx, Q.size // 9).reshape(shape), G.phis(
            ctx, Q.size // 9).reshape(shape)
        inv = ctx.chance(0.5)
        got = ctx.call(cu.matrix_geo_to_base, relayout(ctx, th, False), ph,
                       *(relayout(ctx, Q[..., j, :], False)
                         for j in range(3)), inverse=inv)
        for i in nodes(ctx, shape):
            one = cu.matrix_geo_to_base(th[i], ph[i], *(Q[i][j] for j in
                                                        range(3)), inverse=inv)
            for g, w in zip(got, one):
                ctx.close(g[i], w, 1e-9, 'matrix_geo_to_base stack')
    elif u == 2:
        k, a, b = ctx.int(1, 6), ctx.int(1, 3), ctx.int(1, 3)
        f = np.abs(ctx.rng.normal(size=(k, a, b)))
        f[0] = 0
        s = ctx.rng.normal(size=(k, a, b)) + 1j * ctx.rng.normal(size=(k, a, b))
        sc = ctx.chance(0.5)
        t = ctx.uni(-5, 5, int(np.prod(shape))).reshape(shape)
        got = ctx.call(cu.synth_rotate_gauss, relayout(ctx, t, False), f,
                       relayout(ctx, s, False), scaled=sc)
        for i in nodes(ctx, shape):
            one = cu.synth_rotate_gauss(np.array(t[i]), f, s, scaled=sc)
            ctx.close(got[i], one, 1e-11, 'synth_rotate_gauss stack')
    elif u == 3:
        n = ctx.int(1, 5)
        c = ctx.rng.normal(size=shape + (n * (n + 2),))
        src = ctx.pick('internal', 'external', 'toroidal')
        got = ctx.call(mu.power_spectrum, relayout(ctx, c, False), 7000.0,
                       source=src)
        for i in nodes(ctx, shape):
            ctx.close(got[i], mu.power_spectrum(c[i], 7000.0, source=src),
                      1e-10, 'power_spectrum stack')
    else:
        p = ctx.uni(0.01, 50, 5) * 86400
        sg, rad = 10 ** ctx.uni(-3, 1, 4), np.array([6371.2, 6000., 5000.,
                                                     3480.])
        n, kind = ctx.int(1, 4), ctx.pick('quadratic', 'constant')
        got = ctx.call(cu.q_response_1D, p, sg, rad, n, kind=kind)
        for i in range(5):
            one = cu.q_response_1D(p[i:i + 1], sg, rad, n, kind=kind)
            for g, w in zip(got, one):
                ctx.close(g[i], w[0], 1e-8 * abs(w[0]), 'q_response_1D batch')


def dates(ctx):
    """mjd2000 broadcasts its date and time-of-day arguments"""
    shape = ctx.pick((), (3,), (2, 2))
    if ctx.chance(0.02):
        ctx.hit('large batch')
        shape = ctx.pick((1500,), (100, 50), (20001,))
    gens = [lambda n: ctx.rng.integers(1600, 2400, n),
            lambda n: ctx.rng.integers(1, 13, n),
            lambda n: ctx.rng.integers(1, 29, n),
            lambda n: ctx.rng.integers(0, 24, n),
            lambda n: ctx.rng.integers(0, 60, n),
            lambda n: ctx.rng.integers(0, 60, n),
            lambda n: ctx.rng.integers(0, 10 ** 6, n),
            lambda n: ctx.rng.integers(0, 1000, n)]
    k = ctx.int(1, len(gens))
    a = []
    for g in gens[:k]:
        s = subshape(ctx, shape)
        a.append(g(int(np.prod(s)) if s else 1).reshape(s))
    full = np.broadcast_shapes(*[x.shape for x in a])
    got = ctx.call(du.mjd2000, *a)
    ctx.check(np.shape(got) == full, f'mjd2000 shape {np.shape(got)} expected '
              f'{full}')
    for i in nodes(ctx, full):
        one = du.mjd2000(*(int(np.broadcast_to(x, full)[i]) for x in a))
        ctx.close(np.asarray(got)[i], one, 1e-9, 'mjd2000 broadcast')


def large_ops(ctx):
    """name, function of arrays with one leading axis, generators, most
    elements, elements evaluated at once for comparison"""
    tm = (lambda n: ctx.uni(-30000, 30000, n))
    th = (lambda n: off_pole(ctx, n))
    ph = (lambda n: ctx.uni(-179, 179, n))
    r = (lambda n: ctx.uni(6300., 9000., n))
    any_ = (lambda n: ctx.uni(-1000, 1000, n))
    h = (lambda n: ctx.uni(-5, 800, n))
    n = ctx.int(1, 2)
    src = ctx.pick('internal', 'external')
    c = ctx.rng.normal(size=n * (n + 2))
    brk = G.breaks(ctx, ctx.int(1, 5))
    order = ctx.int(1, 5)
    co = G.pp_coeffs(ctx, order, brk, n * (n + 2), 1.0)
    out = ctx.pick(0.0, 0.3)
    tin = (lambda k: G.times_in(ctx, brk, k, out))
    tdm = (lambda k: ctx.uni(brk[0], brk[-1], k))
    m = cp.chaos.BaseModel('x', brk, order, co, source=src)
    knots = mu.augment_breaks(brk, order)
    ref, inv = ctx.pick('gsm', 'sm'), ctx.chance(0.5)
    dip = G.dipole(ctx)
    ly = ctx.chance(0.5)
    spec = G.chaos_spec(ctx, n_tdep=2, n_static=3)
    M = G.build_chaos(ctx, spec)
    tM = (lambda k: ctx.uni(*(spec['breaks'][[0, -1]]), k))
    path = ctx.path('rc.h5')
    G.write_rc_h5(path, G.rc_table(ctx, spec['breaks'][0] - 25,
                                   spec['breaks'][-1] + 25))
    cp.basicConfig['file.RC_index'] = path
    f = np.abs(ctx.rng.normal(size=(4, 3, 3)))
    sp = ctx.rng.normal(size=(4, 3, 3)) + 1j * ctx.rng.normal(size=(4, 3, 3))
    Q = G.random_rotation(ctx)

    def turn(k):
        # rotations about the third axis of a random frame
        a = ctx.uni(0, 2 * np.pi, k)[:, None]
        return Q[0] * np.cos(a) + Q[1] * np.sin(a)

    def frame(b1):
        b2 = np.cross(Q[2], b1)
        return b1, b2, np.broadcast_to(Q[2], b1.shape)

    sg, rad = 10 ** ctx.uni(-3, 1, 4), np.array([6371.2, 6000., 5000., 3480.])
    kind = ctx.pick('quadratic', 'constant')
    N, S = 200000, 997
    return [
        ('synth_values', lambda r, t, p: mu.synth_values(
            c, r, t, p, source=src), [r, th, ph], N, S),
        ('synth_values poles', lambda r, t, p: mu.synth_values(
            c, r, t, p, source=src), [r, lambda k: np.where(
                np.arange(k) % 50 == 0, 180., th(k)), ph], N, S),
        ('synth_values coeffs', lambda c, r, t: mu.synth_values(
            c, r, t, 20., source=src), [lambda k: ctx.rng.normal(
                size=(k, c.size)), r, th], N, S),
        ('synth_values grid', lambda t: mu.synth_values(
            c, 7000., t, np.arange(-180., 180., 7.), source=src, grid=True),
         [th], 4000, 97),
        ('synth_values grid rows', lambda p: tuple(np.moveaxis(
            x, -1, 0) for x in mu.synth_values(
                c, 7000., np.arange(1., 180., 9.), p, source=src, grid=True)),
         [ph], 4000, 97),
        ('design_gauss', lambda r, t, p: mu.design_gauss(
            r, t, p, n, source=src), [r, th, ph], N, S),
        ('design_matrix', lambda q, r, t, p: mu.design_matrix(
            knots, order, 1, q, r, t, p, n_static=2), [tdm, r, th, ph], 20000,
         331),
        ('legendre_poly', lambda t: np.moveaxis(mu.legendre_poly(n, t), -1, 0),
         [th], N, S),
        ('colloc_matrix', lambda t: mu.colloc_matrix(t, knots, order), [tdm],
         N, S),
        ('synth_from_pp', lambda t, r, q, p: mu.synth_from_pp(
            brk, order, co, t, r, q, p, source=src), [tdm, r, th, ph], N, S),
        ('synth_coeffs', m.synth_coeffs, [tin], N, S),
        ('BaseModel.synth_values', m.synth_values, [tin, r, th, ph], N, S),
        ('CHAOS', lambda t, r, q, p, rc: M(
            t, r, q, p, rc_e=rc, rc_i=rc), [tM, r, th, ph, any_], 20000, 499),
        ('CHAOS RC file', lambda t, r, q, p: M(t, r, q, p),
         [tM, r, th, ph], 20000, 499),
        ('synth_coeffs_gsm', M.synth_coeffs_gsm, [tM], 20000, 499),
        ('synth_coeffs_sm', M.synth_coeffs_sm, [tM], 20000, 499),
        ('synth_values_static', M.synth_values_static, [r, th, ph], N, S),
        ('sun_position', cu.sun_position, [tm], N, S),
        ('zenith_angle', cu.zenith_angle, [tm, th, ph], N, S),
        ('spherical_to_cartesian', cu.spherical_to_cartesian, [r, th, ph],
         N, S),
        ('cartesian_to_spherical', cu.cartesian_to_spherical,
         [any_, any_, any_], N, S),
        ('center_azimuth', cu.center_azimuth, [any_], N, S),
        ('local_time', cu.local_time, [tm, ph], N, S),
        ('basevectors_gsm', lambda t: cu.basevectors_gsm(t, dipole=dip), [tm],
         N, S),
        ('basevectors_sm', lambda t: cu.basevectors_sm(t, dipole=dip), [tm],
         N, S),
        ('basevectors_use', cu.basevectors_use, [th, ph], N, S),
        ('basevectors_gg', cu.basevectors_gg, [th, th], N, S),
        ('gg_to_geo', cu.gg_to_geo, [h, lambda k: 90. - th(k), any_, any_],
         N, S),
        ('geo_to_gg', cu.geo_to_gg, [r, th, any_, any_], N, S),
        ('transform_points', lambda t, p, q: cu.transform_points(
            t, p, q, reference=ref, inverse=inv, dipole=dip), [th, ph, tm], N,
         S),
        ('transform_vectors', lambda t, p, x, y, q: cu.transform_vectors(
            t, p, x, y, q, reference=ref, inverse=inv, dipole=dip),
         [th, ph, any_, any_, tm], N, S),
        ('transform_vectors mag', lambda t, p, x, y: cu.transform_vectors(
            t, p, x, y, reference='mag', inverse=inv, dipole=dip),
         [th, ph, any_, any_], N, S),
        ('rotate_gauss', lambda b1: cu.rotate_gauss(1, 1, *frame(b1)),
         [turn], 600, 31),
        ('synth_rotate_gauss', lambda t: cu.synth_rotate_gauss(t, f, sp), [tm],
         20000, 499),
        ('power_spectrum', lambda c: mu.power_spectrum(c, 7000.),
         [lambda k: ctx.rng.normal(size=(k, 8))], N, S),
        ('q_response_1D', lambda p: cu.q_response_1D(
            p, sg, rad, n, kind=kind), [lambda k: 10 ** ctx.uni(4, 8, k)],
         400 if kind == 'constant' else N, 97 if kind == 'constant' else S),
        ('dyear_to_mjd', lambda t: du.dyear_to_mjd(t, leap_year=ly),
         [lambda k: ctx.uni(1000, 3000, k)], N, S),
        ('mjd_to_dyear', lambda t: du.mjd_to_dyear(t, leap_year=ly), [tm], N,
         S),
        ('is_leap_year', lambda y: du.is_leap_year(y).astype(float),
         [lambda k: ctx.rng.integers(1, 3000, k)], N, S),
        ('timestamp', lambda t: (du.timestamp(t) - np.datetime64(
            '2000-01-01')) / np.timedelta64(1, 's'), [tm], N, S),
        ('mjd2000', lambda y, k, s: du.mjd2000(y, k, 1, 2, 3, s),
         [lambda k: ctx.rng.integers(1700, 2200, k),
          lambda k: ctx.rng.integers(1, 13, k),
          lambda k: ctx.rng.integers(0, 60, k)], 20000, 499),
        ('mjd2000 dates', du.mjd2000, [lambda k: np.datetime64(
            '1950-01-01', 's') + ctx.rng.integers(0, 2 * 10 ** 9, k)], N, S),
    ]


NLARGE = 42


def large(ctx):
    """arrays of up to 200000 elements against the same elements in slices of a few hundred, all of them"""
    ops = large_ops(ctx)
    ctx.check(len(ops) == NLARGE, f'{len(ops)} operations')
    name, fn, gens, most, size = ops[ctx.index % NLARGE]
    # the largest array first, then random sizes
    n = most if ctx.index < NLARGE else int(
        10 ** ctx.uni(np.log10(2 * size), np.log10(most)))
    args = [g(n) for g in gens]
    ctx.describe(what=name, n=n, head=[a[:3] for a in args])
    ctx.hit('arrays of many elements')
    outs = ctx.call(fn, *args)
    outs = list(outs) if isinstance(outs, tuple) else [outs]
    parts = []
    a = 0
    while a < n:
        b = min(n, a + size)
        o = fn(*(x[a:b] for x in args))
        parts.append(list(o) if isinstance(o, tuple) else [o])
        a = b
    for k, o in enumerate(outs):
        want = np.concatenate([np.asarray(p[k]) for p in parts], axis=0) \
            if np.ndim(o) else parts[0][k]
        o = np.asarray(o)
        mag = np.nanmax(np.abs(want)) if want.size else 0.
        ctx.check(o.shape == want.shape, f'{name}[{k}]: shape {o.shape}, in '
                  f'slices {want.shape}')
        ctx.close(o, want, 1e-10 * mag + 1e-300,
                  f'{name}[{k}] of {n} elements versus slices')


FAMILIES = [Family('field', field, 2000, 32000),
            Family('grid', grid, 1600, 20000),
            Family('stacked_grid', stacked_grid, 1200, 16000),
            Family('missing', missing, 1600, 16000),
            Family('missing_conversions', missing_conversions, 1200, 16000),
            Family('model', model, 2400, 32000),
            Family('chaos', chaos, 640, 8000),
            Family('coordinates', coordinates, 2800, 32000),
            Family('stacked', stacked, 800, 10000),
            Family('dates', dates, 600, 8000),
            Family('large', large, 2 * NLARGE, 20 * NLARGE)]
