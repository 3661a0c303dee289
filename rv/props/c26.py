"""C26: results depend on the values of the arguments, not on their spelling."""
import os

import numpy as np

from ..core import cp, Family
from .. import refs as R, gens as G

mu, cu, du = cp.model_utils, cp.coordinate_utils, cp.data_utils
REQUIRED = ['int64 array', 'int32 array', 'Python int', 'Python float',
            'NumPy integer', 'NumPy float', 'integer 0-d', 'list',
            'read-only', 'strided', 'by position', 'by keyword', 'option omitted',
            'option None', 'option explicit', 'NumPy integer option',
            'time zero', 'azimuth zero', 'integer model', 'integer CHAOS',
            'list model', 'integer shc-file', 'pole', 'keyword order',
            'default satellites', 'break points within the day']


class Op:
    """A public function, a value for every parameter in the documented
    order, and which of them are options."""

    def __init__(self, name, fn, post=None):
        self.name, self.fn, self.post = name, fn, post
        self.params = []          # (name, kind, value, default, kwonly)

    def num(self, **kw):          # numbers that may be written in any form
        self.params += [(k, 'num', v, None, False) for k, v in kw.items()]
        return self

    def arr(self, **kw):          # arrays, documented as such
        self.params += [(k, 'arr', v, None, False) for k, v in kw.items()]
        return self

    def vec(self, **kw):          # arrays of any numbers, lists accepted
        self.params += [(k, 'vec', v, None, False) for k, v in kw.items()]
        return self

    def int(self, **kw):          # a degree, order or count
        self.params += [(k, 'int', v, None, False) for k, v in kw.items()]
        return self

    def fix(self, **kw):
        self.params += [(k, 'fix', v, None, False) for k, v in kw.items()]
        return self

    def opt(self, kwonly=True, **kw):
        """option=(kind, value, documented default)"""
        self.params += [(k, v[0], v[1], (v[2],), kwonly)
                        for k, v in kw.items()]
        return self


def whole(ctx, shape, lo, hi, special=()):
    """Floating-point array of whole numbers."""
    a = ctx.rng.integers(lo, hi + 1, size=shape).astype(float)
    a = np.asarray(a)
    if special and ctx.chance(0.4):
        b = a.reshape(-1)
        b[ctx.int(0, b.size - 1)] = ctx.pick(*special)
        a = b.reshape(np.shape(a))
    return a


def forms(ctx, kind, v):
    """Another way to write the value v."""
    if kind == 'int':
        u = ctx.int(0, 3)
        if u:
            ctx.hit('NumPy integer option')
            return (np.int64, np.int32, np.intp)[u - 1](v)
        return int(v)
    if kind == 'date':
        return own_forms(ctx, v)
    if kind == 'fix' or v is None or isinstance(v, (str, bool)):
        return v
    v = np.asarray(v)
    if kind != 'real' and np.array_equal(v, np.round(v)):
        if v.ndim == 0 and kind == 'num':
            u = ctx.int(0, 6)
            ctx.hit(('Python int', 'Python float', 'NumPy integer',
                     'NumPy float', 'integer 0-d', 'NumPy integer',
                     'float 0-d')[u])
            return (int, float, np.int64, np.float64,
                    lambda x: np.array(int(x)), np.int32,
                    np.asarray)[u](v)
        u = ctx.int(0, 5)
        if u < 2:
            ctx.hit('int64 array')
            return v.astype(np.int64)
        if u == 2:
            ctx.hit('int32 array')
            return v.astype(np.int32)
        if u == 3 and v.ndim and kind == 'vec':
            ctx.hit('list')
            return ctx.pick(v, v.astype(int)).tolist()
        if u == 4 and v.ndim:
            return np.asfortranarray(v.astype(np.int64))
    elif kind == 'vec' and v.ndim and ctx.chance(0.3):
        ctx.hit('list')
        return v.tolist()
    if v.ndim and ctx.chance(0.4):
        ctx.hit('strided')
        b = np.zeros(tuple(2 * k for k in v.shape))
        w = tuple(slice(None, None, 2) for _ in v.shape)
        b[w] = v
        return b[w]
    b = np.array(v)
    b.setflags(write=False)
    ctx.hit('read-only')
    return b


def same(ctx, got, want, what, rtol=1e-11):
    if isinstance(want, (tuple, list)):
        ctx.check(isinstance(got, (tuple, list)) and len(got) == len(want),
                  f'{what}: {type(got).__name__} instead of '
                  f'{len(want)} outputs')
        for i, (g, w) in enumerate(zip(got, want)):
            same(ctx, g, w, f'{what}[{i}]', rtol)
    elif isinstance(want, dict):
        ctx.check(set(got) == set(want), f'{what}: {sorted(got)}')
        for k in want:
            same(ctx, got[k], want[k], f'{what}[{k!r}]', rtol)
    elif want is None or isinstance(want, (str, bool)):
        ctx.check(got == want, f'{what}: {got!r} instead of {want!r}')
    elif np.asarray(want).dtype.kind in 'MbSUO':
        ctx.equal(np.asarray(got), np.asarray(want), what)
    else:
        w = np.asarray(want)
        big = np.abs(w[np.isfinite(w)])
        ctx.close(got, w, rtol * (big.max() if big.size else 0) + 1e-300,
                  what)


def respell(ctx, op, rtol=1e-11):
    """The documented call with floating-point arrays against the same call
    written differently."""
    base, kw = [], {}
    for name, kind, v, default, kwonly in op.params:
        if default is not None:
            kw[name] = v
        else:
            base.append(v)
    want = ctx.call(op.fn, *base, **kw)
    args, kwargs, named = [], {}, False
    for name, kind, v, default, kwonly in op.params:
        if default is not None:
            d = default[0]
            asdef = d is v or (not isinstance(v, np.ndarray) and
                               type(d) is type(v) and d == v)
            if asdef:
                u = ctx.int(0, 2)
                ctx.hit(('option omitted', 'option None',
                         'option explicit')[u])
                if u == 0:
                    named = True
                    continue
                w = None if u == 1 else forms(ctx, kind, v)
            else:
                w = forms(ctx, kind, v)
        else:
            w = forms(ctx, kind, v)
        if not named and not kwonly and ctx.chance(0.6):
            ctx.hit('by position')
            args.append(w)
        else:
            named = True
            ctx.hit('by keyword')
            kwargs[name] = w
    if len(kwargs) > 1 and ctx.chance(0.5):
        ctx.hit('keyword order')
        keys = list(kwargs)
        kwargs = {keys[i]: kwargs[keys[i]] for i in ctx.rng.permutation(
            len(keys))}
    got = ctx.call(op.fn, *args, **kwargs)
    if op.post:
        got, want = op.post(got), op.post(want)
    ctx.hit(op.name)
    ctx.describe(what=op.name, args=args, kwargs=kwargs)
    same(ctx, got, want, op.name, rtol)


def shapes(ctx):
    return ctx.pick((), (), (1,), (4,), (2, 3))


def places(ctx, s, poles=True):
    r = whole(ctx, s, 5000, 8000)
    th = whole(ctx, s, 1, 179, (0., 180.) if poles else (90.,))
    ph = whole(ctx, s, -180, 360, (0., 180., -180., 360., 90.))
    if np.any(th % 180 == 0):
        ctx.hit('pole')
    if np.any(ph == 0):
        ctx.hit('azimuth zero')
    return r, th, ph


def days(ctx, s, lo=-3000, hi=6000):
    t = whole(ctx, s, lo, hi, (0.,) if lo <= 0 <= hi else ())
    if np.any(t == 0):
        ctx.hit('time zero')
    return t


def half(ctx):
    """Break points at noon."""
    if ctx.chance(0.3):
        ctx.hit('break points within the day')
        return 0.5
    return 0.


def source(ctx):
    return ('fix', ctx.pick('internal', 'internal', 'external'), 'internal')


def model_ops(ctx):
    s = shapes(ctx)
    n = ctx.int(1, 4)
    dim = n * (n + 2)
    c = whole(ctx, s + (dim,), -30000, 30000)
    vec = whole(ctx, (dim,), -30000, 30000)
    r, th, ph = places(ctx, s)
    nmax = ctx.int(1, n)
    brk = np.cumsum(whole(ctx, (ctx.int(2, 5),), 1, 900)) - 500.
    brk = brk + half(ctx)
    order = ctx.int(1, 5)
    knots = np.r_[[brk[0]] * (order - 1), brk, [brk[-1]] * (order - 1)]
    k = ctx.int(2, 6)
    tk = days(ctx, (k,), int(np.ceil(brk[0])), int(brk[-1]))
    ti = days(ctx, s, int(np.ceil(brk[0])), int(brk[-1]))
    rk, thk, phk = places(ctx, (k,), False)
    co = whole(ctx, (order, brk.size - 1, dim), -900, 900)
    cb = whole(ctx, (knots.size - order, dim), -900, 900)
    # grids
    a, b = ctx.int(1, 4), ctx.int(1, 4)
    rg = whole(ctx, ctx.pick((), (a, b), (1, b)), 5000, 8000)
    thg, phg = whole(ctx, (a,), 1, 179), whole(ctx, (b,), -180, 360)
    axis = ctx.pick(-1, 0) if c.ndim > 1 else -1
    ca = np.moveaxis(c, -1, axis)
    true = vec.copy()
    true[np.isin(np.arange(dim), np.arange(1, n + 1) ** 2 - 1)] = 35000
    mm = ctx.int(0, n)
    cm = whole(ctx, (len(R.coeff_index(1, n, mm)),), -30000, 30000)
    return [
        Op('synth_values', mu.synth_values).vec(coeffs=c).num(
            radius=r, theta=th, phi=ph).opt(
            nmax=('int', ctx.pick(n, nmax), n), nmin=('int', 1, 1),
            mmax=('fix', None, None), source=source(ctx),
            grid=('fix', False, False)),
        Op('synth_values mmax', mu.synth_values).vec(coeffs=cm).num(
            radius=r, theta=th, phi=ph).opt(
            nmax=('int', n, n), nmin=('int', 1, 1),
            mmax=('int', mm, 'none'), source=source(ctx)),
        Op('synth_values grid', mu.synth_values).vec(coeffs=vec).num(
            radius=rg).vec(theta=thg, phi=phg).opt(
            source=source(ctx), grid=('fix', True, False)),
        Op('design_gauss', mu.design_gauss).num(
            radius=r, theta=th, phi=ph).int(nmax=n).opt(
            nmin=('int', ctx.pick(1, nmax), 1), mmax=(
                'int', ctx.pick(n, mm), n), source=source(ctx)),
        Op('design_matrix', mu.design_matrix).arr(knots=knots).int(
            order=order, n_tdep=n).arr(
            time=tk, radius=rk, theta=thk, phi=phk).opt(
            kwonly=False, n_static=('int', ctx.pick(n, n, n + 1), n),
            source=source(ctx)),
        Op('colloc_matrix', mu.colloc_matrix).arr(x=tk, knots=knots).int(
            order=order).opt(kwonly=False, deriv=(
                'int', ctx.pick(0, 0, ctx.int(0, order)), 0)),
        Op('augment_breaks', mu.augment_breaks).vec(breaks=brk).int(
            order=order),
        Op('pp_from_bspline', mu.pp_from_bspline).arr(
            coeffs=cb, knots=knots).int(order=order),
        Op('synth_from_pp', mu.synth_from_pp).arr(breaks=brk).int(
            order=order).arr(coeffs=co).num(
            time=ti, radius=r, theta=th, phi=ph).opt(
            nmax=('int', ctx.pick(n, nmax), n), source=source(ctx),
            deriv=('int', ctx.pick(0, ctx.int(0, order)), 0),
            grid=('fix', False, False)),
        Op('legendre_poly', mu.legendre_poly).int(nmax=n).num(theta=th),
        Op('power_spectrum', mu.power_spectrum).arr(coeffs=ca).opt(
            kwonly=False, radius=('num', ctx.pick(
                None, whole(ctx, (), 3000, 8000)), None)).opt(
            nmax=('int', ctx.pick(n, nmax), n), source=(
                'fix', ctx.pick('internal', 'external', 'toroidal'),
                'internal'), axis=('int', axis, -1)),
        Op('degree_correlation', mu.degree_correlation).arr(
            coeffs_1=true, coeffs_2=whole(ctx, (dim,), 1, 900)),
        Op('sensitivity', mu.sensitivity).fix(coeffs=vec).arr(
            coeffs_true=true),
    ]


def coord_ops(ctx):
    s = shapes(ctx)
    t = days(ctx, s, -30000, 30000)
    r, th, ph = places(ctx, s, False)
    lat = 90. - th
    x, y, z = (whole(ctx, s, -9000, 9000) for _ in range(3))
    h = whole(ctx, s, -5, 800, (0.,))
    u, v = (whole(ctx, s, -60000, 60000, (0.,)) for _ in range(2))
    Q = Q1 = G.random_rotation(ctx)
    if ctx.chance(0.5):       # axes along the geographic ones
        Q1 = np.array([[0., 1, 0], [0, 0, 1], [1, 0, 0]])
    dip = ctx.pick(np.array([-29442., -1501., 4797.]), whole(
        ctx, (3,), -30000, 30000), np.array([11., 290.]))
    default = np.array(cp.basicConfig['params.dipole'])
    if ctx.chance(0.4):
        dipole = ('vec', default, default)
    else:
        dipole = ('fix' if dip.size == 2 else 'vec', tuple(
            dip) if dip.size == 2 else dip, 'none')
    ref = ctx.pick('gsm', 'sm', 'mag')
    inv = ('fix', ctx.pick(False, True), False)
    n, k = ctx.int(1, 3), ctx.int(1, 3)
    f = whole(ctx, (4,), 0, 9)
    sp = ctx.rng.normal(size=(4, 2, 2)) + 1j * ctx.rng.normal(size=(4, 2, 2))
    layers = ctx.int(2, 5)
    rad = np.sort(whole(ctx, (layers,), 3000, 6371))[::-1] - np.arange(layers)
    sig = whole(ctx, (layers,), 1, 9)
    per = whole(ctx, (4,), 3600, 10 ** 7)
    tt = () if ref == 'mag' else (t,)
    points = Op('transform_points', cu.transform_points).num(theta=th, phi=ph)
    vectors = Op('transform_vectors', cu.transform_vectors).num(
        theta=th, phi=ph, B_theta=u, B_phi=v)
    for op in (points, vectors):
        op.params.append(('time', 'num', t, None, False) if tt else (
            'time', 'fix', None, (None,), False))
        op.params.append(('reference', 'fix', ref, ('none',),
                          op is points))
        op.opt(kwonly=op is points, inverse=inv, dipole=dipole)
    start = days(ctx, (), -3000, 3000)
    step = whole(ctx, (), 1, 3)
    N = ctx.int(8, 12)
    return [
        Op('sun_position', cu.sun_position).num(time=t),
        Op('zenith_angle', cu.zenith_angle).num(time=t, theta=th, phi=ph),
        Op('spherical_to_cartesian', cu.spherical_to_cartesian).num(
            radius=r, theta=th, phi=ph),
        Op('cartesian_to_spherical', cu.cartesian_to_spherical).num(
            x=x, y=y, z=z),
        Op('gg_to_geo', cu.gg_to_geo).num(height=h, beta=th).opt(
            kwonly=False, X=('fix', None, None), Z=('fix', None, None)),
        Op('gg_to_geo field', cu.gg_to_geo).num(height=h, beta=th, X=u, Z=v),
        Op('geo_to_gg', cu.geo_to_gg).num(radius=r + 1300, theta=th).opt(
            kwonly=False, B_radius=('fix', None, None),
            B_theta=('fix', None, None)),
        Op('geo_to_gg field', cu.geo_to_gg).num(
            radius=r + 1300, theta=th, B_radius=u, B_theta=v),
        Op('basevectors_gg', cu.basevectors_gg).num(theta=th, beta=lat),
        Op('basevectors_gsm', cu.basevectors_gsm).num(time=t).opt(
            kwonly=False, dipole=dipole),
        Op('basevectors_sm', cu.basevectors_sm).num(time=t).opt(
            kwonly=False, dipole=dipole),
        Op('basevectors_mag', cu.basevectors_mag).opt(
            kwonly=False, dipole=dipole),
        Op('dipole_to_vec', cu.dipole_to_vec).opt(
            kwonly=False, dipole=dipole),
        Op('igrf_dipole', cu.igrf_dipole).opt(kwonly=False, epoch=(
            'fix', ctx.pick('2015', '2010'), '2015')),
        Op('basevectors_use', cu.basevectors_use).num(theta=th, phi=ph),
        Op('geo_to_base', cu.geo_to_base).num(theta=th, phi=ph).arr(
            base_1=Q1[0], base_2=Q1[1], base_3=Q1[2]).opt(
            kwonly=False, inverse=inv),
        Op('matrix_geo_to_base', cu.matrix_geo_to_base).num(
            theta=th, phi=ph).arr(
            base_1=Q[0], base_2=Q[1], base_3=Q[2]).opt(
            kwonly=False, inverse=inv),
        points, vectors,
        Op('center_azimuth', cu.center_azimuth).num(phi=whole(
            ctx, s, -900, 900, (0., 180., -180., 360.))),
        Op('local_time', cu.local_time).num(time=t, phi=ph),
        Op('synth_rotate_gauss', cu.synth_rotate_gauss).arr(
            time=t).vec(frequency=f).fix(spectrum=sp).opt(
            kwonly=False, scaled=('fix', ctx.pick(False, True), False)),
        Op('rotate_gauss', cu.rotate_gauss).int(nmax=n, kmax=k).arr(
            base_1=Q1[0], base_2=Q1[1], base_3=Q1[2]),
        Op('rotate_gauss_fft', cu.rotate_gauss_fft,
           # order of equally large terms is not fixed
           lambda o: cu.synth_rotate_gauss(np.arange(3.), o[0], o[1])).int(
            nmax=1, kmax=1).opt(
            qfunc=('fix', None, None),
            step=('num', step, 1.0), N=('int', N, 'none'),
            save_to=('fix', False, False),
            reference=('fix', ctx.pick('gsm', 'sm'), 'gsm'),
            scaled=('fix', False, False),
            start_date=('num', start, 0.0)),
        Op('q_response_1D', cu.q_response_1D).vec(
            periods=per, sigma=sig).arr(radius=rad).int(n=n).opt(
            kwonly=False, kind=('fix', ctx.pick('quadratic', 'constant'),
                                'quadratic')),
    ]


def time_ops(ctx):
    s = shapes(ctx)
    t = days(ctx, s, -30000, 30000)
    y = whole(ctx, s, 1600, 2300, (2000., 1900., 2004.))
    ly = ('fix', ctx.pick(True, False), True)
    parts = dict(month=whole(ctx, s, 1, 12), day=whole(ctx, s, 1, 28),
                 hour=whole(ctx, s, 0, 23), minute=whole(ctx, s, 0, 59),
                 second=whole(ctx, s, 0, 59),
                 microsecond=whole(ctx, s, 0, 999999),
                 nanosecond=whole(ctx, s, 0, 999))
    date = Op('mjd2000', du.mjd2000).fix(year=y.astype(int))
    for i, (k, v) in enumerate(parts.items()):
        # documented as integers
        date.params.append((k, 'date', v.astype(int), None, False))
    d = ctx.int(0, 4)
    return [
        Op('timestamp', du.timestamp).num(time=t),
        Op('dyear_to_mjd', du.dyear_to_mjd).num(time=y).opt(
            kwonly=False, leap_year=ly),
        Op('mjd_to_dyear', du.mjd_to_dyear).num(time=t).opt(
            kwonly=False, leap_year=ly),
        date,
        Op('gauss_units', du.gauss_units).opt(
            kwonly=False, deriv=('int', d, 0)),
    ]


def own_forms(ctx, v):
    """Integers of a date."""
    v = np.asarray(v)
    u = ctx.int(0, 3)
    if v.ndim == 0:
        ctx.hit('Python int' if u < 2 else 'NumPy integer')
        return int(v) if u < 2 else np.int64(v)
    if u == 0:
        ctx.hit('list')
        return v.tolist()
    return v.astype(np.int32) if u == 1 else v


def ops(ctx):
    """functions of model_utils, coordinate_utils and data_utils: same values of the arguments, written differently"""
    table = ctx.pick(model_ops, model_ops, coord_ops, coord_ops,
                     time_ops)(ctx)
    respell(ctx, table[ctx.int(0, len(table) - 1)])


def spec_whole(ctx):
    """CHAOS constructor arguments that are whole numbers."""
    n, ns = ctx.int(1, 3), ctx.int(1, 4)
    order = ctx.int(1, 4)
    brk = np.cumsum(whole(ctx, (ctx.int(2, 5),), 100, 900)) - 600.
    brk = brk + half(ctx)
    pieces = brk.size - 1
    w = (lambda *s: whole(ctx, s, -900, 900))
    g = np.zeros(8)
    g[[0, 3]] = w(2)
    b2 = np.r_[brk[0] - 10, brk[1:-1], brk[-1] + 10]
    spec = dict(breaks=brk, order=order, coeffs_tdep=w(
        order, pieces, n * (n + 2)), coeffs_static=w(1, 1, ns * (ns + 2)),
        coeffs_sm=w(8), coeffs_gsm=g,
        breaks_delta=dict(q10=b2, q11=b2 - 1, s11=b2 - 1),
        coeffs_delta={k: w(1, pieces) for k in ('q10', 'q11', 's11')},
        breaks_euler={'swarm_a': brk}, coeffs_euler={
            'swarm_a': w(1, pieces, 3)},
        breaks_cal={'cryosat-2_1': brk}, coeffs_cal={
            'cryosat-2_1': w(1, pieces, 9)})
    return spec, n, ns


def methods(ctx):
    """methods of BaseModel and CHAOS: same values of the arguments, written differently"""
    spec, n, ns = spec_whole(ctx)
    brk, order = spec['breaks'], spec['order']
    m = cp.chaos.BaseModel('x', brk, order, spec['coeffs_tdep'],
                           source=ctx.pick('internal', 'external'))
    M = G.build_chaos(ctx, spec)
    s = shapes(ctx)
    t = days(ctx, s, int(np.ceil(brk[0])), int(brk[-1]))
    if ctx.chance(0.3):
        t = days(ctx, s, int(brk[0]) - 9, int(brk[-1]) + 9)
    r, th, ph = places(ctx, s)
    k = ctx.int(1, n)
    nmax = ('int', ctx.pick(n, k), n)
    deriv = ('int', ctx.pick(0, ctx.int(0, order)), 0)
    ext = ('fix', ctx.pick('linear', 'linear', 'quadratic', 'off', 'spline'),
           'linear')
    if ctx.chance(0.25):
        ext = ('int', ctx.int(0, order + 1), 'none')
    grid = ('fix', False, False)
    src = ctx.pick('external', 'internal')
    all_ = ('fix', ctx.pick('all', 'external', 'internal'), 'all')
    rc, rc2 = (whole(ctx, ctx.pick((), s), -90, 90, (0.,)) for _ in range(2))
    two = ('int', ctx.pick(2, 1), 2)
    sat = 'swarm_a'
    table = [
        Op('BaseModel.synth_coeffs', m.synth_coeffs).num(time=t).opt(
            nmax=nmax, deriv=deriv, extrapolate=ext),
        Op('BaseModel.synth_values', m.synth_values).num(
            time=t, radius=r, theta=th, phi=ph).opt(
            nmax=nmax, deriv=deriv, grid=grid, extrapolate=ext),
        Op('BaseModel.power_spectrum', m.power_spectrum).num(time=t).opt(
            kwonly=False, radius=('num', ctx.pick(
                6371.2, whole(ctx, (), 3000, 8000)), 6371.2)).opt(
            nmax=nmax, deriv=deriv, extrapolate=ext),
        Op('CHAOS.synth_coeffs_tdep', M.synth_coeffs_tdep).num(time=t).opt(
            nmax=nmax, deriv=deriv, extrapolate=ext),
        Op('CHAOS.synth_values_tdep', M.synth_values_tdep).num(
            time=t, radius=r, theta=th, phi=ph).opt(
            nmax=nmax, deriv=deriv, grid=grid, extrapolate=ext),
        Op('CHAOS.synth_coeffs_static', M.synth_coeffs_static).opt(
            nmax=('int', ns, ns)),
        Op('CHAOS.synth_values_static', M.synth_values_static).num(
            radius=r, theta=th, phi=ph).opt(nmax=('int', ns, ns)),
        Op('CHAOS.synth_coeffs_gsm', M.synth_coeffs_gsm).num(time=t).opt(
            nmax=two, source=('fix', src, 'external')),
        Op('CHAOS.synth_values_gsm', M.synth_values_gsm).num(
            time=t, radius=r, theta=th, phi=ph).opt(
            nmax=two, source=all_, grid=grid),
        Op('CHAOS.synth_coeffs_sm', M.synth_coeffs_sm).num(time=t).opt(
            nmax=two, source=('fix', src, 'external'),
            rc=('num', rc, 'none')),
        Op('CHAOS.synth_values_sm', M.synth_values_sm).num(
            time=t, radius=r, theta=th, phi=ph).opt(
            rc_e=('num', rc, 'none'), rc_i=('num', rc2, 'none'), nmax=two,
            source=all_, grid=grid),
        Op('CHAOS.synth_euler_angles', M.synth_euler_angles).num(
            time=t).fix(satellite=sat).opt(
            dim=('int', ctx.pick(3, 1), 3), deriv=('int', 0, 0),
            extrapolate=ext),
        Op('CHAOS.__call__', M.__call__).num(
            time=t, radius=r, theta=th, phi=ph).opt(
            kwonly=False, rc_e=('num', rc, 'none'),
            rc_i=('num', rc2, 'none'),
            source_list=('fix', ctx.pick(None, 'internal', 'external',
                                         ['gsm']), None),
            nmax_static=('fix', None, None),
            verbose=('fix', False, False)),
    ]
    respell(ctx, table[ctx.int(0, len(table) - 1)])


def write(ctx, x, arrays):
    """A value of the specification in another form."""
    if isinstance(x, dict):
        return {k: write(ctx, v, arrays) for k, v in x.items()}
    if not isinstance(x, np.ndarray):
        return x
    if np.any(x % 1):
        return x if arrays else x.tolist()
    if arrays:
        return x.astype(ctx.pick(np.int64, np.int32))
    return ctx.pick(x, x.astype(int)).tolist()


def built(ctx):
    """models built from integer arrays or lists equal those built from floating-point arrays"""
    spec, n, ns = spec_whole(ctx)
    t = days(ctx, (5,), int(np.ceil(spec['breaks'][0])), int(
        spec['breaks'][-1]))
    r, th, ph = places(ctx, (5,), False)
    out = ctx.path('out')
    os.makedirs(out, exist_ok=True)
    kind = ctx.pick('Base', 'BaseModel', 'CHAOS', 'from_bspline')
    ctx.describe(kind=kind, breaks=spec['breaks'], order=spec['order'])
    if kind == 'CHAOS':
        ctx.hit('integer CHAOS')
        want = G.build_chaos(ctx, spec)
        s = {k: write(ctx, v, True) if ctx.chance(0.7) else v
             for k, v in spec.items()}
        got = G.build_chaos(ctx, s)
        res = []
        for m, f in ((got, 'a'), (want, 'b')):
            p = os.path.join(out, f + '.mat')
            ctx.call(m.save_matfile, p)
            q = os.path.join(out, f + '.shc')
            ctx.call(m.save_shcfile, q, model='tdep')
            back = cp.load_CHAOS_matfile(p, satellites=['swarm_a'])
            shc = cp.load_CHAOS_shcfile(q)
            res.append([
                m(t, r, th, ph, rc_e=t, rc_i=-t), m.synth_coeffs_tdep(
                    t, deriv=1), m.synth_coeffs_gsm(t, source='internal'),
                m.synth_coeffs_sm(t, rc=3.), m.synth_values_static(r, th, ph),
                m.synth_euler_angles(t, 'swarm_a'),
                m.model_cal['cryosat-2_1'].synth_coeffs(t),
                back(t, r, th, ph, rc_e=1., rc_i=0.),
                back.synth_coeffs_tdep(t), [] if shc.model_tdep is None
                else shc.synth_coeffs_tdep(t),
                back.synth_euler_angles(t, 'swarm_a')])
        same(ctx, res[0], res[1], 'CHAOS of integers', 1e-10)
        return
    arrays = ctx.chance(0.5)
    ctx.hit('integer model' if arrays else 'list model')
    order, brk, co = spec['order'], spec['breaks'], spec['coeffs_tdep']
    meta = ctx.pick(None, {'author': 'x', 'n': 3})
    if kind == 'from_bspline':
        knots = np.r_[[brk[0]] * (order - 1), brk, [brk[-1]] * (order - 1)]
        cb = whole(ctx, (knots.size - order, n * (n + 2)), -900, 900)
        f = cp.chaos.BaseModel.from_bspline
        want = ctx.call(f, 'm', knots, cb, order, source='external',
                        meta=meta)
        got = ctx.call(f, 'm', write(ctx, knots, True), write(
            ctx, cb, True), forms(ctx, 'int', order), 'external', meta)
    else:
        f = getattr(cp.chaos, kind)
        want = ctx.call(f, 'm', breaks=brk, order=order, coeffs=co, meta=meta)
        args = [write(ctx, brk, arrays), forms(ctx, 'int', order), write(
            ctx, co, arrays)]
        if kind == 'BaseModel':
            args.append(ctx.pick(None, 'internal'))
        got = ctx.call(f, 'm', *args, meta) if ctx.chance(0.5) else \
            ctx.call(f, 'm', *args, meta=meta)
    for m in (got, want):
        ctx.check(m.meta is meta or m.meta == meta, f'{kind}: meta {m.meta!r}'
                  f' instead of {meta!r}')
        ctx.check(m.name == 'm', f'{kind}: name {m.name!r}')
    res = []
    for i, m in enumerate((got, want)):
        o = [m.synth_coeffs(t), m.synth_coeffs(t, deriv=1), m.breaks,
             m.coeffs, m.to_ppdict()]
        p = os.path.join(out, f'{i}.mat')
        ctx.call(m.save_matfile, p)
        pp = du.load_matfile(p)['pp']
        o.append({k: pp[k] for k in ('order', 'pieces', 'dim', 'breaks',
                                     'coefs')})
        if kind != 'Base':
            q = os.path.join(out, f'{i}.shc')
            ctx.call(m.to_shc, q)
            o += [m.synth_values(t, r, th, ph), m.power_spectrum(t),
                  du.load_shcfile(q)[:2]]
            back = ctx.call(cp.chaos.BaseModel.from_shc, q, name=ctx.pick(
                'y', None), source='external', meta=meta)
            ctx.check(back.name in ('y', str(i)) and back.meta == meta and
                      back.source == 'external',
                      f'from_shc: {back.name!r}, {back.source!r}, '
                      f'{back.meta!r}')
            o.append(back.synth_coeffs(t))
        res.append(o)
    same(ctx, res[0], res[1], f'{kind} of {"integers" if arrays else "lists"}',
         1e-10)


def files(ctx):
    """save_shcfile and load_shcfile with integers: same file as with floating-point numbers"""
    n = ctx.int(1, 4)
    nmin = ctx.int(1, n)
    T = ctx.int(1, 5)
    c = whole(ctx, (T, n * (n + 2)), -30000, 30000)
    t = np.sort(days(ctx, (T,), -30000, 30000)) + np.arange(T)
    if T == 1 and ctx.chance(0.4):
        t, c = t[0], c[0]
    out = ctx.path('f')
    os.makedirs(out, exist_ok=True)
    ly = ctx.pick(True, False)
    ctx.hit('integer shc-file')
    data = []
    for i in range(2):
        p = q = os.path.join(out, f'{i}.shc')
        if i and ctx.chance(0.4):
            ctx.hit('default file name')
            q = 'model.shc'
            p = os.path.join(out, q)
            os.chdir(out)
        if i == 0:
            ctx.call(du.save_shcfile, np.asarray(t), c, order=1, filepath=p,
                     nmin=nmin, nmax=n, leap_year=ly)
        else:
            op = Op('save_shcfile', du.save_shcfile).num(time=t).arr(
                coeffs=c).opt(
                kwonly=False, order=('int', 1, 1),
                filepath=('fix', q, 'model.shc'), nmin=('int', nmin, 1),
                nmax=('int', n, n), leap_year=('fix', ly, True),
                header=('fix', '', ''))
            op.name = 'save_shcfile'
            respell(ctx, op)
        with open(p) as f:
            data.append([x for x in f if not x.startswith('#')])
    ctx.check(data[0] == data[1], f'save_shcfile: {data[1][:3]} with '
              f'integers, {data[0][:3]} with floating-point numbers')
    op = Op('load_shcfile', du.load_shcfile).fix(filepath=p).opt(
        kwonly=False, leap_year=('fix', ly, True), comment=('fix', '#', '#'))
    respell(ctx, op)
    rc = ctx.path('rc.dat')
    G.write_rc_dat(rc, G.rc_table(ctx, -5, 5))
    op = Op('load_RC_datfile', du.load_RC_datfile, lambda d: [
        np.asarray(d[k]) for k in ('time', 'RC', 'RC_e', 'RC_i')]).opt(
        kwonly=False, filepath=('fix', rc, 'none'), parse_dates=(
            'fix', False, False))
    respell(ctx, op)


def described(m):
    """Name, parts and values of a model, for comparing."""
    t = np.array([-400., 0., 100., 2000.])
    o = [type(m).__name__, str(m.name)]
    if isinstance(m, cp.CHAOS):
        for part in ('model_tdep', 'model_static'):
            x = getattr(m, part)
            o.append([] if x is None else described(x))
        if m.coeffs_sm is not None:
            o += [m.synth_coeffs_sm(t, rc=2.), m.synth_coeffs_gsm(t)]
        for k in sorted(m.model_euler or {}):
            o += [k, m.model_euler[k].synth_coeffs(t)]
        for k in sorted(m.model_cal or {}):
            o += [k, m.model_cal[k].synth_coeffs(t)]
        return o
    return o + [m.breaks, m.order, m.coeffs, str(m.source), m.nmax]


def lines(path):
    with open(path) as f:
        return [x for x in f if not x.startswith('#') or 'nm_' in x] + [
            f'comments {path != ""}']


SATELLITES = ['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b', 'swarm_c',
              'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']


def loaders(ctx):
    """reading and writing models: omitted, None and explicit defaults, by position or keyword"""
    from . import c09
    out = ctx.path('io')
    os.makedirs(out, exist_ok=True)
    stem = ctx.pick('model', 'CHAOS-7.13', 'a.b_c', '1')
    name = ('fix', ctx.pick(stem, 'other'), stem)
    noleap = ('fix', ctx.pick(False, False, True), False)
    u = ctx.int(0, 9)
    if u < 4:
        # text files
        path = os.path.join(out, stem + '.txt')
        old = ctx.path
        try:
            ctx.path = lambda f: os.path.join(out, f)
            kind = ctx.pick('covobs', 'gufm', 'cals7k', 'igrf')
            before = set(os.listdir(out))
            getattr(c09, kind)(ctx)
        finally:
            ctx.path = old
        text = sorted(set(os.listdir(out)) - before)
        src = os.path.join(out, text[0])
        os.replace(src, path)
        fn = dict(covobs=cp.chaos.load_CovObs_txtfile,
                  gufm=cp.chaos.load_gufm1_txtfile,
                  cals7k=cp.chaos.load_CALS7K_txtfile,
                  igrf=cp.chaos.load_IGRF_txtfile)[kind]
        if kind == 'cals7k':          # documented: with the extension
            name = ('fix', name[1] if name[1] == 'other' else stem + '.txt',
                    stem + '.txt')
        op = Op(f'load {kind}', fn, described).fix(filepath=path).opt(
            kwonly=False, name=name)
        respell(ctx, op)
        return
    spec, n, ns = spec_whole(ctx)
    nsat = ctx.int(1, 9)
    sats = SATELLITES[:nsat]
    brk = spec['breaks']
    spec['breaks_euler'] = {k: brk for k in sats}
    spec['coeffs_euler'] = {k: whole(ctx, (1, brk.size - 1, 3), -90, 90)
                            for k in sats}
    M = G.build_chaos(ctx, spec)
    parts = ('tdep', 'static') if ns > n else ('tdep',)
    mat = os.path.join(out, stem + '.mat')
    shc = os.path.join(out, stem + '.shc')
    if u == 4:
        # the default names apply to a file with nine satellites
        if nsat == 9:
            sat = ('fix', SATELLITES, SATELLITES)
            ctx.hit('default satellites')
        else:
            sat = ('fix', sats, 'none')
        ctx.call(M.save_matfile, mat)
        op = Op('load_CHAOS_matfile', ctx.pick(
            cp.load_CHAOS_matfile, cp.CHAOS.from_mat), described).fix(
            filepath=mat).opt(kwonly=False, name=name, satellites=sat)
    elif u == 5:
        fn = ctx.pick(cp.load_CHAOS_shcfile, cp.CHAOS.from_shc,
                      cp.chaos.BaseModel.from_shc)
        ctx.call(M.save_shcfile, shc, model=ctx.pick(*parts))
        op = Op('load shc', fn, described).fix(filepath=shc)
        if fn == cp.CHAOS.from_shc:   # documentation differs from the code
            name = ('fix', 'other', 'none')
        kwonly = fn is not cp.load_CHAOS_shcfile
        op.opt(kwonly=kwonly, name=name, leap_year=noleap)
        if fn == cp.chaos.BaseModel.from_shc:
            op.opt(source=('fix', ctx.pick('internal', 'external'),
                           'internal'), meta=('fix', None, None))
    elif u == 6:
        k = ctx.int(1, ns)

        def write_shc(*args, **kw):
            M.model_static.to_shc(*args, **kw)
            return lines(shc)
        op = Op('to_shc', write_shc).fix(filepath=shc).opt(
            leap_year=noleap, nmin=('int', ctx.pick(1, k), 1),
            nmax=('int', ctx.pick(ns, ctx.int(k, ns)), ns),
            header=('fix', '# x\n', 'none'))
    elif u == 7:
        def write_chaos(*args, **kw):
            M.save_shcfile(*args, **kw)
            return lines(shc)
        op = Op('CHAOS.save_shcfile', write_chaos).fix(filepath=shc).opt(
            model=('fix', ctx.pick(*parts), 'tdep'),
            leap_year=noleap)
    elif u == 8:
        p = ctx.pick('/pp', '/pp', '/x')

        def write_mat(*args, **kw):
            if os.path.exists(mat):
                os.remove(mat)
            M.model_tdep.save_matfile(*args, **kw)
            d = du.load_matfile(mat)
            return {k: {q: np.asarray(v[q]) for q in (
                'order', 'pieces', 'dim', 'breaks', 'coefs')}
                for k, v in d.items()}
        op = Op('save_matfile', write_mat).fix(filepath=mat).opt(
            kwonly=False, path=('fix', p, '/pp'))
    else:
        rc = os.path.join(out, 'rc.dat')
        h5 = os.path.join(out, 'rc.h5')
        G.write_rc_dat(rc, G.rc_table(ctx, -5, 5))

        def write_rc(*args, **kw):
            import h5py
            du.save_RC_h5file(*args, **kw)
            with h5py.File(h5, 'r') as f:
                return {k: f[k][:] for k in f}
        op = Op('save_RC_h5file', write_rc).fix(filepath=h5, read_from=rc)
    respell(ctx, op)


FAMILIES = [Family('ops', ops, 6000, 60000),
            Family('methods', methods, 2000, 20000),
            Family('built', built, 400, 5000),
            Family('files', files, 400, 5000),
            Family('loaders', loaders, 400, 5000)]
