"""C17: spherical, azimuth, local-time and zenith helpers are consistent."""
from fractions import Fraction
import math

import numpy as np

from ..core import cp, Family
from .. import refs as R, gens as G

cu = cp.coordinate_utils
REQUIRED = ['scalar', 'array', '2-d', 'axis', 'pole', 'date line', 'origin',
            'negative zero', 'integer input', 'multiple turns',
            'tiny negative angle', 'boundary 180', 'boundary -180', 'broadcast',
            'subsolar point', 'antisolar point', 'midnight', 'poles rejected',
            'huge or tiny radius', 'float32']
SHAPES = ((), (), (1,), (5,), (2, 3), (0,), (2, 1, 2))


def draw(ctx):
    shape = ctx.pick(*SHAPES)
    ctx.hit('scalar' if shape == () else '2-d' if len(shape) > 1 else 'array')
    return shape, (int(np.prod(shape)) if shape else 1)


def arg(ctx, x):
    return x.item() if np.ndim(x) == 0 and ctx.chance(0.6) else x


def in_range(ctx, ph, what):
    ph = np.asarray(ph)
    ctx.check(np.all((ph > -180) & (ph <= 180)),
              f'{what} outside (-180, 180]: {ph}')


def cartesian(ctx):
    """spherical_to_cartesian / cartesian_to_spherical: position, ranges, mutual inverse, axes"""
    shape, n = draw(ctx)
    if ctx.chance(0.5):
        th, ph = G.thetas(ctx, n).reshape(shape), G.phis(ctx, n).reshape(shape)
        r = np.asarray(ctx.uni(0.5, 8000, shape))
        if ctx.chance(0.2):
            ctx.hit('huge or tiny radius')
            r = r * ctx.pick(1e9, 1e-9, 1e30, 1e-30)
        if ctx.chance(0.2):
            r, ctx.sample['r'] = np.asarray(1), 1
            ctx.hit('broadcast')
        if np.any((th == 0) | (th == 180)):
            ctx.hit('pole')
        if np.any(np.remainder(ph, 360) == 180):
            ctx.hit('date line')
        ctx.describe(r=r, theta=th, phi=ph)
        xyz = ctx.call(cu.spherical_to_cartesian, arg(ctx, r), arg(ctx, th),
                       arg(ctx, ph))
        want = R.unit(th, ph) * np.asarray(r, R.LD)[..., None]
        for i in range(3):
            ctx.close(xyz[i], want[..., i], 1e-15 * 20 * np.asarray(r, float),
                      f'component {i}', shape=i < 2 or r.shape == shape)
        o = ctx.call(cu.cartesian_to_spherical, *xyz)
        ctx.close(o[0], np.broadcast_to(r, shape).astype(float),
                  1e-14 * r, 'radius')
        in_range(ctx, o[2], 'longitude')
        ctx.check(np.all((np.asarray(o[1]) >= 0) & (np.asarray(o[1]) <= 180)),
                  f'colatitude range {o[1]}')
        ctx.close(R.unit(o[1], o[2]), R.unit(th, ph), 5e-14,
                  'direction after the round trip')
        # colatitude well determined everywhere
        ctx.close(o[1], th, 2e-13, 'colatitude after the round trip',
                  shape=False)
        return
    v = ctx.rng.normal(size=(3,) + shape) * ctx.pick(1.0, 7000.0, 1e-6)
    for i in range(3):
        if ctx.chance(0.35):
            v[i] = ctx.pick(0.0, 0.0, -0.0, -1e-20)
    if not np.all(np.any(v != 0, axis=0)):
        ctx.hit('origin')
    if n and np.any((v[0] == 0) | (v[1] == 0) | (v[2] == 0)):
        ctx.hit('axis')
    if n and np.any(np.signbit(v) & (v == 0)):
        ctx.hit('negative zero')
    if n and np.any((v[0] < 0) & (np.abs(v[1]) <= 1e-20)):
        ctx.hit('date line')
    if ctx.chance(0.15):
        v = np.rint(v * 3).astype(int)
        ctx.hit('integer input')
    elif ctx.chance(0.1):
        v = np.where(np.abs(v) < 1e-10, 0, v).astype(np.float32)
        ctx.hit('float32')
    eps = 1e-6 if v.dtype == np.float32 else 1e-14
    ctx.describe(v=v)
    o = ctx.call(cu.cartesian_to_spherical, *(arg(ctx, x) for x in v))
    L = v.astype(R.LD)
    r = np.sqrt((L * L).sum(0))
    for x in o:
        ctx.equal(np.shape(x), shape, 'shape')
    ctx.close(o[0], r, eps * r.astype(float) + 1e-300, 'radius')
    in_range(ctx, o[2], 'longitude')
    ctx.check(np.all((np.asarray(o[1]) >= 0) & (np.asarray(o[1]) <= 180)),
              f'colatitude range {o[1]}')
    ok = np.asarray(r > 0)
    u = R.unit(o[1], o[2])[ok]
    ctx.close(u, np.moveaxis(L, 0, -1)[ok] / r[ok][..., None],
              5 * eps, 'direction')
    ctx.close(np.asarray(o[1])[ok], np.degrees(np.arctan2(np.hypot(
        L[0], L[1]), L[2]))[ok], 400 * eps, 'colatitude')


def bases(ctx):
    """basevectors_use are the local up, south and east unit vectors; poles are rejected"""
    shape, n = draw(ctx)
    if n == 0:
        shape, n = (3,), 3
    th = G.thetas(ctx, n, poles=False).reshape(shape)
    ph = G.phis(ctx, n).reshape(shape)
    th = np.clip(th, 1e-6, 180 - 1e-6)
    if ctx.chance(0.3) and shape:
        ph = ph.flat[0]
        ctx.hit('broadcast')
    ctx.describe(theta=th, phi=ph)
    b = ctx.call(cu.basevectors_use, arg(ctx, th), arg(ctx, ph))
    want = R.local_axes(th, ph)
    for i in range(3):
        ctx.equal(np.shape(b[i]), shape + (3,), 'shape')
        ctx.close(b[i], np.moveaxis(want[i], 0, -1), 1e-14, f'axis {i + 1}')
    if ctx.chance(0.3):
        bad = np.array(th)
        bad.flat[ctx.int(0, n - 1)] = ctx.pick(0.0, 180.0)
        ctx.hit('poles rejected')
        ctx.rejects(cu.basevectors_use, bad, ph)


def azimuth(ctx):
    """center_azimuth: congruent angle in (-180, 180]"""
    shape, n = draw(ctx)
    p = np.asarray(ctx.uni(-1000, 1000, shape))
    if ctx.chance(0.3):
        p = np.asarray(ctx.uni(-1e6, 1e6, shape))
        ctx.hit('multiple turns')
    if n and ctx.chance(0.6):
        p = np.array(p)
        for i in range(n):
            if ctx.chance(0.6):
                p.flat[i] = ctx.pick(180., -180., 0., 360., -360., 540., -540.,
                                     -1e-20, 1e-20, -0.0, 180 + 1e-13,
                                     -180 - 1e-13, np.nextafter(180, 181),
                                     np.nextafter(-180, 0),
                                     np.nextafter(180, 0), 359.99999999999994)
    if np.any(p == 180):
        ctx.hit('boundary 180')
    if np.any(p == -180):
        ctx.hit('boundary -180')
    if np.any((p < 0) & (p > -1e-19)):
        ctx.hit('tiny negative angle')
    if ctx.chance(0.2):
        p = np.rint(p).astype(int)
        ctx.hit('integer input')
    ctx.describe(phi=p)
    keep = p.copy()
    got = ctx.call(cu.center_azimuth, arg(ctx, p))
    ctx.equal(p, keep, 'argument afterwards')
    ctx.equal(np.shape(got), shape, 'shape')
    in_range(ctx, got, 'azimuth')
    g = np.asarray(got, dtype=float)
    for i in np.ndindex(shape):
        d = (Fraction(float(g[i])) - Fraction(float(p[i]))) % 360
        d = float(min(d, 360 - d))
        ctx.check(d <= 6e-14 + 1e-16 * abs(float(p[i])),
                  f'center_azimuth({float(p[i])!r}) = {g[i]!r}, off by {d}')


def local_times(ctx):
    """local_time: hours in [0, 24) congruent to UT + longitude/15"""
    shape, n = draw(ctx)
    t = np.asarray(ctx.uni(-40000, 40000, shape))
    ph = G.phis(ctx, n).reshape(shape)
    if ctx.chance(0.4):
        t = np.floor(t)
        ctx.hit('midnight')
    if n and ctx.chance(0.3):
        ph = np.array(ph)
        ph.flat[ctx.int(0, n - 1)] = ctx.pick(-1e-13, -1e-20, 360., -360.,
                                              -1e-14)
        if ctx.chance(0.5):
            t = t * 0
    if shape and ctx.chance(0.2):
        ph = np.asarray(ph.flat[0]) if n else np.asarray(10.)
        ctx.hit('broadcast')
    ctx.describe(time=t, phi=ph)
    got = ctx.call(cu.local_time, arg(ctx, t), arg(ctx, ph))
    ctx.equal(np.shape(got), shape, 'shape')
    g = np.asarray(got)
    ctx.check(np.all((g >= 0) & (g < 24)), f'outside [0, 24): {g}')
    P = np.broadcast_to(ph, shape)
    for i in np.ndindex(shape):
        d = (Fraction(float(g[i])) - 24 * Fraction(float(t[i]))
             - Fraction(float(P[i])) / 15) % 24
        d = float(min(d, 24 - d))
        ctx.check(d <= 1e-12 + 6e-15 * abs(float(t[i])),
                  f'local_time({t[i]}, {P[i]}) = {g[i]}, off by {d} h')


def zenith(ctx):
    """zenith_angle: angle between the local vertical and the Sun of sun_position"""
    shape, n = draw(ctx)
    t = np.asarray(ctx.uni(-36000, 36000, shape))
    th, ph = G.thetas(ctx, n).reshape(shape), G.phis(ctx, n).reshape(shape)
    ts, ps = (np.asarray(x) for x in ctx.call(cu.sun_position, t))
    k = ctx.pick('any', 'any', 'sub', 'anti')
    if k == 'sub':
        th, ph = ts, ps + ctx.pick(0, 360)
        ctx.hit('subsolar point')
    elif k == 'anti':
        th, ph = 180 - ts, ps - 180
        ctx.hit('antisolar point')
    elif n and np.any((th == 0) | (th == 180)):
        ctx.hit('pole')
    if k == 'any' and shape and ctx.chance(0.3):
        th = np.asarray(50.0)
        ctx.hit('broadcast')
    ctx.describe(time=t, theta=th, phi=ph)
    got = ctx.call(cu.zenith_angle, arg(ctx, t), arg(ctx, th), arg(ctx, ph))
    ctx.equal(np.shape(got), shape, 'shape')
    g = np.asarray(got)
    ctx.check(np.all((g >= 0) & (g <= 180)), f'range {g}')
    want = R.angle(R.unit(th, ph), R.unit(ts, ps))
    want = np.broadcast_to(want, shape)
    # arccos loses accuracy towards 0 and 180 degrees
    s = np.abs(np.sin(np.radians(want)))
    tol = np.minimum(6e-13 / np.maximum(s, 1e-30), 6e-6) + 3e-13
    ctx.close(g, want, tol, 'zenith angle')
    S = R.sun_vector_meeus(t)
    ctx.close(g, R.angle(np.broadcast_to(R.unit(th, ph), shape + (3,)), S),
              0.0061, 'zenith angle versus ephemeris')


FAMILIES = [Family('cartesian', cartesian, 16000, 200000),
            Family('bases', bases, 4000, 40000),
            Family('azimuth', azimuth, 12000, 160000),
            Family('local_time', local_times, 8000, 120000),
            Family('zenith', zenith, 8000, 120000)]
