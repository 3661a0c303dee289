"""C14: GSM, SM and MAG frames and the Sun direction obey their definitions."""
import numpy as np

from ..core import cp, Family
from .. import refs as R, gens as G

cu = cp.coordinate_utils
REQUIRED = ['default dipole', 'config dipole', 'dipole array',
            'dipole angles', 'dipole coefficients tuple', 'dipole per time',
            '0-d time', '1-d time', '2-d time', 'scalar time', 'GSM', 'SM',
            'MAG', 'before 1950', 'after 2050', 'outside 1901-2099',
            'reversed dipole', 'epoch 2010', 'epoch 2015', 'dipole list',
            'time zero', 'axis in a meridian plane', 'axis of the Earth',
            'integers']
ASSUMPTIONS = ['Sun direction judged to 0.006 degrees, the documented '
               'accuracy, against the formulas of Meeus (UT taken as TT)']
LO, HI = -36159.0, 36159.0


def times(ctx):
    shape = ctx.pick((), (), (1,), (5,), (2, 3))
    t = np.asarray(ctx.uni(LO, HI, shape))
    if ctx.chance(0.3):
        t = np.floor(t) + ctx.pick(0.0, 0.5, 0.25)
    if ctx.chance(0.15):
        ctx.hit('time zero')
        t.flat[ctx.int(0, t.size - 1)] = ctx.pick(0.0, 0.5)
    if np.any(t < -18262):
        ctx.hit('before 1950')
    if np.any(t > 18262):
        ctx.hit('after 2050')
    if shape == () and ctx.chance(0.5):
        ctx.hit('scalar time')
        if t == np.floor(t) and ctx.chance(0.6):
            ctx.hit('integers')
            return ctx.pick(int, np.int64)(t)
        return float(t)
    ctx.hit(f'{t.ndim}-d time')
    if np.array_equal(t, np.floor(t)) and ctx.chance(0.6):
        ctx.hit('integers')
        return t.astype(ctx.pick(np.int64, np.int32))
    return t


def sun(ctx):
    """sun_position against an independent ephemeris; times outside 1901-2099 rejected"""
    t = times(ctx)
    ctx.describe(time=t)
    th, ph = ctx.call(cu.sun_position, t)
    ctx.equal(np.shape(th), np.shape(t), 'shape of theta')
    ctx.equal(np.shape(ph), np.shape(t), 'shape of phi')
    th, ph = np.asarray(th), np.asarray(ph)
    ctx.check(np.all((th >= 0) & (th <= 180)), f'colatitude range {th}')
    ctx.check(np.all((ph > -180) & (ph <= 180)), f'longitude range {ph}')
    a = R.angle(R.unit(th, ph), R.sun_vector_meeus(t))
    ctx.close(a, np.zeros(a.shape), 0.006, 'angle to the Sun (degrees)')
    bad = np.array(t, dtype=float)
    k = ctx.int(0, bad.size - 1)
    bad.flat[k] = ctx.pick(-36165.0, 36525.1, -40000.0, 60000.0, 1e6, -1e7)
    ctx.hit('outside 1901-2099')
    if np.ndim(t) == 0 and ctx.chance(0.5):
        bad = float(bad)
    fn = ctx.pick(cu.sun_position, cu.basevectors_gsm, cu.basevectors_sm)
    ctx.rejects(fn, bad)


def dipole_input(ctx, shape, axial):
    """Keyword and unit vectors (shape + (3,) or (3,)) of a dipole."""
    kind = ctx.pick('default', 'config', 'array', 'angles', 'tuple', 'list',
                    'many')
    d = G.dipole(ctx)
    if ctx.chance(0.2):
        d = -d
        ctx.hit('reversed dipole')
    if ctx.chance(0.15):
        ctx.hit('axis in a meridian plane')
        d[ctx.pick(0, 1, 2)] = 0.0
    elif axial and ctx.chance(0.05):
        ctx.hit('axis of the Earth')
        d[1:] = 0.0
    if ctx.chance(0.2):
        ctx.hit('integers')
        d = np.round(d)
        if kind != 'config':
            d = d.astype(int)
    if kind == 'default':
        ctx.hit('default dipole')
        return {}, G.dipole_unit(np.asarray(cp.basicConfig['params.dipole']))
    if kind == 'config':
        ctx.hit('config dipole')
        cp.basicConfig['params.dipole'] = d
        return ctx.pick({}, dict(dipole=None)), G.dipole_unit(d)
    if kind == 'array':
        ctx.hit('dipole array')
        return dict(dipole=d), G.dipole_unit(d)
    if kind == 'tuple':
        ctx.hit('dipole coefficients tuple')
        return dict(dipole=tuple(d.tolist())), G.dipole_unit(d)
    if kind == 'list':
        ctx.hit('dipole list')
        return dict(dipole=d.tolist()), G.dipole_unit(d)
    if kind == 'angles':
        ctx.hit('dipole angles')
        th, ph = float(ctx.uni(1, 179)), float(ctx.uni(-180, 360))
        if ctx.chance(0.3):
            th, ph = ctx.int(1, 179), ctx.pick(ctx.int(-180, 360), 0, 180)
        if axial and ctx.chance(0.1):
            ctx.hit('axis of the Earth')
            th = ctx.pick(0, 180, 0.0, 180.0)
        return dict(dipole=(th, ph)), R.unit(float(th), float(ph))
    ctx.hit('dipole per time')
    ds = np.stack([G.dipole(ctx) for _ in range(
        int(np.prod(shape)) if shape else 1)]).reshape(shape + (3,))
    v = -ds[..., [1, 2, 0]].astype(R.LD)
    u = v / np.sqrt((v * v).sum(-1, keepdims=True))
    if ctx.chance(0.5):
        return dict(dipole=ds), u
    return dict(dipole=tuple(ds[..., i] for i in range(3))), u


def triad(ctx, b, shape):
    ctx.check(len(b) == 3, 'three base vectors')
    for i, x in enumerate(b):
        ctx.equal(np.shape(x), shape + (3,), f'shape of base vector {i + 1}')
    M = np.stack(b, axis=-2)
    ctx.close(M @ np.swapaxes(M, -1, -2), np.broadcast_to(
        np.eye(3), shape + (3, 3)), 1e-12, 'orthonormality')
    ctx.close(np.linalg.det(M), np.ones(shape), 1e-12, 'right-handedness')
    return M


def frames(ctx):
    """basevectors of GSM, SM and MAG against their definitions from the dipole axis and the Sun"""
    ref = ctx.pick('GSM', 'SM', 'MAG')
    ctx.hit(ref)
    t = times(ctx)
    shape = np.shape(t)
    kw, mu = dipole_input(ctx, shape, ref != 'MAG')
    ctx.describe(ref=ref, time=t, **kw)
    got = ctx.call(cu.dipole_to_vec, **kw)
    ctx.equal(np.shape(got)[-1:], (3,), 'trailing dimension of dipole_to_vec')
    ctx.close(got, np.broadcast_to(mu, np.shape(got)), 1e-13, 'dipole_to_vec')
    mu = np.broadcast_to(mu, mu.shape if ref == 'MAG' else shape + (3,))
    if ref == 'MAG':
        M = triad(ctx, ctx.call(cu.basevectors_mag, **kw), mu.shape[:-1])
        ctx.close(M[..., 2, :], mu, 1e-13, 'MAG z along the dipole')
        ctx.close(M[..., 1, 2], np.zeros(mu.shape[:-1]), 1e-13,
                  'MAG y perpendicular to the geographic axis')
        # x in the half plane of the dipole that leads to the south pole
        ctx.check(np.all(M[..., 0, 2] < 0), 'MAG x towards the south')
        return
    fn = cu.basevectors_gsm if ref == 'GSM' else cu.basevectors_sm
    M = triad(ctx, ctx.call(fn, t, **kw), shape)
    s = R.unit(*ctx.call(cu.sun_position, t))
    e1, e2, e3 = (M[..., i, :].astype(R.LD) for i in range(3))
    ctx.close((e2 * mu).sum(-1), np.zeros(shape), 1e-12,
              'dipole in the x-z plane')
    ctx.close((e2 * s).sum(-1), np.zeros(shape), 1e-12,
              'Sun in the x-z plane')
    if ref == 'GSM':
        ctx.close(e1, s, 1e-12, 'GSM x towards the Sun')
        ctx.check(np.all((e3 * mu).sum(-1) > 0), 'GSM z along the dipole')
    else:
        ctx.close(e3, mu, 1e-12, 'SM z along the dipole')
        ctx.check(np.all((e1 * s).sum(-1) > 0), 'SM x towards the Sun')
    S = R.sun_vector_meeus(t)
    a = R.angle(e1 if ref == 'GSM' else S, S)
    ctx.close(a, np.zeros(shape), 0.006, 'angle of x to the ephemeris Sun')
    y = np.cross(mu.astype(float), S.astype(float))
    ny = np.linalg.norm(y, axis=-1, keepdims=True)
    b = R.angle(e2, y / ny)
    ctx.close(b, np.zeros(shape), 0.0061 / ny[..., 0],
              'angle of y to its ephemeris direction')


def igrf(ctx):
    """igrf_dipole returns the unit vector to the geomagnetic north pole of the epoch"""
    e = ctx.pick('2010', '2015', 2010, 2015, None)
    ctx.hit(f'epoch {e or 2015}')
    got = ctx.call(cu.igrf_dipole, *([] if e is None else [e]))
    ctx.describe(epoch=e)
    want = R.unit(11.32, 289.59) if str(e) == '2010' else G.dipole_unit(
        np.array([-29442.0, -1501.0, 4797.1]))
    ctx.close(got, want, 1e-13, 'dipole unit vector')
    ctx.check(got[2] > 0.9, 'pole in the northern hemisphere')
    ctx.rejects(cu.igrf_dipole, ctx.pick('2000', 2020, 'x', 0))


FAMILIES = [Family('sun', sun, 8000, 120000),
            Family('frames', frames, 10000, 120000),
            Family('igrf', igrf, 80, 160)]
