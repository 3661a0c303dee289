"""C16: geodetic and geocentric coordinates convert exactly both ways."""
import numpy as np

from ..core import cp, Family
from .. import refs as R, gens as G

cu = cp.coordinate_utils
REQUIRED = ['pole', 'close to a pole', 'equator', 'own ellipsoid', 'sphere',
            'WGS84', 'deep', 'far space', 'surface', 'vector components',
            'scalar', 'broadcast', 'one component only', 'component zero', 'integer height',
            'base vectors']
ASSUMPTIONS = ['closed form of the ellipsoid normal in long double; points '
               'below -1000 km height are not judged']


def ellipsoid(ctx):
    u = ctx.rng.random()
    if u < 0.5:
        ctx.hit('WGS84')
        return [R.LD(x) for x in cp.basicConfig['params.ellipsoid']]
    if u < 0.65:
        ctx.hit('sphere')
        a = float(ctx.uni(1000, 8000))
        b = a
    else:
        ctx.hit('own ellipsoid')
        a = float(ctx.uni(1000, 8000))
        b = a * (1 - float(10 ** ctx.uni(-5, -1.7)))
    cp.basicConfig['params.ellipsoid'] = np.array([a, b])
    return R.LD(a), R.LD(b)


def geocentric(a, b, h, beta):
    """Radius, colatitude (degrees) and their angle to the geodetic vertical:
    position on the ellipsoid plus h times its outward normal."""
    c, s = R.sind(beta), R.cosd(beta)            # beta is a colatitude
    N = a * a / np.sqrt(a * a * c * c + b * b * s * s)
    x = (N + h) * c
    z = (N * (b / a) ** 2 + h) * s
    r = np.hypot(x, z)
    # difference geodetic minus geocentric latitude without cancellation
    psi = np.arctan2(s * x - c * z, c * x + s * z)
    theta = np.arctan2(np.abs(x), z) * 180 / R.PI
    return r, theta, psi


def points(ctx, a):
    kind = ctx.pick('scalar', 'vector', 'broadcast', 'grid')
    if kind == 'scalar':
        hs = bs = ()
        ctx.hit('scalar')
    elif kind == 'vector':
        hs = bs = (6,)
    elif kind == 'broadcast':
        hs, bs = ctx.pick(((5,), ()), ((), (5,)), ((4, 1), (3,)))
        ctx.hit('broadcast')
    else:
        hs = bs = (2, 3)
    reg = ctx.pick('surface', 'deep', 'satellite', 'far space')
    ctx.hit(reg)
    lo, hi = {'surface': (-10, 10), 'deep': (-0.15 * a, 0),
              'satellite': (100, 2000), 'far space': (1e4, 1e6)}[reg]
    h = np.asarray(ctx.uni(lo, hi, hs))
    if ctx.chance(0.15):
        h = np.zeros(hs)
    n = int(np.prod(bs)) if bs else 1
    beta = G.thetas(ctx, n).reshape(bs)
    if np.any(beta == 90):
        ctx.hit('equator')
    if np.any((beta == 0) | (beta == 180)):
        ctx.hit('pole')
    if ctx.chance(0.1):
        h = np.round(h).astype(int)
        ctx.hit('integer height')
    return h, beta


def arg(ctx, x):
    return x.item() if np.ndim(x) == 0 and ctx.chance(0.5) else x


def rotate(psi, X, Z):
    """Geodetic north X and down Z into radial and southward components;
    psi is geodetic minus geocentric latitude."""
    up, north = -np.asarray(Z, R.LD), np.asarray(X, R.LD)
    return (up * np.cos(psi) - north * np.sin(psi),
            -(up * np.sin(psi) + north * np.cos(psi)))


def conversions(ctx):
    """gg_to_geo and geo_to_gg against the closed form of the ellipsoid normal, both ways, with vector components"""
    a, b = ellipsoid(ctx)
    h, beta = points(ctx, float(a))
    ctx.describe(height=h, beta=beta, a=float(a), b=float(b))
    shape = np.broadcast(h, beta).shape
    r, th, psi = geocentric(a, b, h, beta)
    scale = float(a) + np.abs(np.asarray(h, float))
    vec = ctx.chance(0.6)
    if vec:
        X, Z = ctx.rng.normal(size=(2,) + shape) * ctx.pick(1.0, 4e4)
        ctx.hit('vector components')
        if ctx.chance(0.15):
            ctx.hit('component zero')
            X, Z = (X * 0, Z) if ctx.chance(0.5) else (X, Z * 0)
        out = ctx.call(cu.gg_to_geo, arg(ctx, h), arg(ctx, beta), X, Z)
    else:
        out = ctx.call(cu.gg_to_geo, arg(ctx, h), arg(ctx, beta))
    ctx.check(len(out) == (4 if vec else 2), f'{len(out)} outputs')
    ctx.equal(np.shape(out[0]), shape, 'shape of the radius')
    ctx.equal(np.broadcast(*out[:2]).shape, shape, 'shape of theta')
    ctx.close(out[0], r, 1e-14 * scale, 'radius')
    ctx.close(out[1], th, 2e-13, 'colatitude', shape=False)
    ctx.check(np.all((out[1] >= 0) & (out[1] <= 180)), 'range of theta')
    if vec:
        # rotation angle known to rounding of the degrees
        tol = 1e-13 * (np.abs(X) + np.abs(Z))
        br, bt = rotate(psi, X, Z)
        ctx.close(out[2], br, tol, 'B_radius')
        ctx.close(out[3], bt, tol, 'B_theta')
        ctx.close(np.hypot(out[2], out[3]), np.hypot(X, Z), tol, 'length')
    elif ctx.chance(0.3):
        ctx.hit('one component only')
        o = ctx.call(cu.gg_to_geo, h, beta, X=np.ones(shape))
        ctx.equal(len(o), 2, 'outputs without Z')
        o = ctx.call(cu.geo_to_gg, out[0], out[1], B_theta=np.ones(shape))
        ctx.equal(len(o), 2, 'outputs without B_radius')
    # the other way round, from our own geocentric coordinates
    rd, td = np.asarray(r, float), np.asarray(th, float)
    if vec:
        o = ctx.call(cu.geo_to_gg, arg(ctx, rd), arg(ctx, td),
                     np.asarray(br, float), np.asarray(bt, float))
    else:
        o = ctx.call(cu.geo_to_gg, arg(ctx, rd), arg(ctx, td))
    ctx.check(len(o) == (4 if vec else 2), f'{len(o)} outputs')
    ctx.equal(np.shape(o[0]), shape, 'shape of the height')
    ctx.close(o[0], np.broadcast_to(h, shape).astype(float), 3e-14 * scale,
              'height')
    ctx.close(o[1], np.broadcast_to(beta, shape), 4e-13, 'geodetic colatitude',
              shape=False)
    if vec:
        ctx.close(o[2], X, 2 * tol, 'X')
        ctx.close(o[3], Z, 2 * tol, 'Z')


def round_trip(ctx):
    """geo_to_gg after gg_to_geo, and the reverse, return the input (coordinates and components)"""
    a, b = ellipsoid(ctx)
    h, beta = points(ctx, float(a))
    shape = np.broadcast(h, beta).shape
    h, beta = np.broadcast_to(h, shape) * 1.0, np.broadcast_to(beta, shape)
    X, Z = ctx.rng.normal(size=(2,) + shape)
    ctx.describe(height=h, beta=beta, a=float(a), b=float(b))
    scale = float(a) + np.abs(h)
    o = ctx.call(cu.gg_to_geo, h, beta, X, Z)
    o = ctx.call(cu.geo_to_gg, *o)
    ctx.close(o[0], h, 3e-14 * scale, 'height after the round trip')
    ctx.close(o[1], beta, 5e-13, 'colatitude after the round trip')
    ctx.close(o[2], X, 1e-12, 'X after the round trip')
    ctx.close(o[3], Z, 1e-12, 'Z after the round trip')
    r, th = scale, np.asarray(beta, float)
    o = ctx.call(cu.geo_to_gg, r, th, X, Z)
    o = ctx.call(cu.gg_to_geo, *o)
    ctx.close(o[0], r, 3e-14 * r, 'radius after the round trip')
    ctx.close(o[1], th, 5e-13, 'theta after the round trip')
    ctx.close(o[2], X, 1e-12, 'B_radius after the round trip')
    ctx.close(o[3], Z, 1e-12, 'B_theta after the round trip')


def triad(ctx):
    """basevectors_gg: north, east and down along the ellipsoid, resolved into radial, southward and eastward components"""
    ctx.hit('base vectors')
    a, b = ellipsoid(ctx)
    h, beta = points(ctx, float(a))
    r, th, psi = geocentric(a, b, np.asarray(h, R.LD), np.asarray(beta, R.LD))
    th = np.asarray(th, float)
    shape = np.broadcast(th, beta).shape
    ctx.describe(theta=th, beta=beta)
    if ctx.chance(0.3):                      # any two colatitudes
        th = ctx.uni(0, 180, shape)
        psi = np.radians(np.asarray(th - beta, R.LD))
    out = ctx.call(cu.basevectors_gg, arg(ctx, th), beta)
    ctx.equal(len(out), 3, 'number of base vectors')
    psi = np.broadcast_to(psi, shape)
    s, c, o = np.sin(psi), np.cos(psi), np.zeros(shape)
    want = (np.stack([-s, -c, o], -1), np.stack([o, o, o + 1], -1),
            np.stack([-c, s, o], -1))
    for g, w, name in zip(out, want, ('north', 'east', 'down')):
        ctx.close(g, w.astype(float), 2e-14, f'base vector {name}')


FAMILIES = [Family('conversions', conversions, 12000, 160000),
            Family('round_trip', round_trip, 6000, 80000),
            Family('triad', triad, 1500, 20000)]
