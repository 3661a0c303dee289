"""C15: point and vector transformations preserve directions and vectors."""
import numpy as np

from ..core import cp, Family
from .. import refs as R, gens as G

cu = cp.coordinate_utils
REQUIRED = ['gsm', 'sm', 'mag', 'forward', 'inverse', 'dipole argument',
            'dipole angles', 'config dipole', 'default dipole', 'scalar point',
            'many times', 'one time many points', 'grid of points', 'pole',
            'target pole', 'date line', 'uppercase reference',
            'single base', 'base per point', 'round trip', 'dipole per time']
ASSUMPTIONS = ['vector transformations are not defined at the poles of either '
               'frame (documented); points stay 1e-4 degrees away from them']


def cart(theta, phi, B_theta, B_phi, B_r=0.0):
    """Cartesian vector (frame axes) of spherical components."""
    er, et, ep = R.local_axes(theta, phi)
    v = B_r * er + B_theta * et + B_phi * ep
    return np.moveaxis(v, 0, -1)


def frame(ctx, tshape):
    """reference, keywords, time and matrix M (rows = base vectors)."""
    ref = ctx.pick('gsm', 'sm', 'mag')
    ctx.hit(ref)
    kw = {}
    kind = ctx.pick('default', 'config', 'array', 'angles', 'per time')
    if kind == 'per time' and (ref == 'mag' or tshape == ()):
        kind = 'array'
    d = G.dipole(ctx)
    if kind == 'config':
        ctx.hit('config dipole')
        cp.basicConfig['params.dipole'] = d
    elif kind == 'default':
        ctx.hit('default dipole')
        d = np.asarray(cp.basicConfig['params.dipole'])
    elif kind == 'per time':
        ctx.hit('dipole per time')
        d = np.stack([G.dipole(ctx) for _ in range(
            int(np.prod(tshape)))]).reshape(tshape + (3,))
        kw['dipole'] = d
    elif kind == 'array':
        ctx.hit('dipole argument')
        kw['dipole'] = d if ctx.chance(0.5) else tuple(d)
    if kind == 'angles':
        ctx.hit('dipole angles')
        th, ph = float(ctx.uni(1, 60)), float(ctx.uni(-180, 180))
        kw['dipole'] = (th, ph)
        mu = R.unit(th, ph)
    else:
        v = -d[..., [1, 2, 0]].astype(R.LD)
        mu = v / np.sqrt((v * v).sum(-1, keepdims=True))
    mu = mu.astype(float)
    time = np.asarray(ctx.uni(-36000, 36000, tshape))
    if ref == 'mag':
        y = np.cross([0., 0., 1.], mu)
        y /= np.linalg.norm(y)
        M = np.stack([np.cross(y, mu), y, mu])
        if ctx.chance(0.3):
            time = None
    else:
        # the Sun as the library sees it (its accuracy is C14's subject)
        s = R.unit(*cu.sun_position(time)).astype(float)
        mu = np.broadcast_to(mu, tshape + (3,))
        y = np.cross(mu, s)
        y /= np.linalg.norm(y, axis=-1, keepdims=True)
        if ref == 'gsm':
            M = np.stack([s, y, np.cross(s, y)], axis=-2)
        else:
            M = np.stack([np.cross(y, mu), y, mu], axis=-2)
    if tshape == () and time is not None and ctx.chance(0.5):
        time = float(time)
    R_ = ref.upper() if ctx.chance(0.2) else ref
    if R_ != ref:
        ctx.hit('uppercase reference')
    return R_, kw, time, M


def points(ctx, poles):
    kind = ctx.pick('scalar', 'same', 'one time', 'grid')
    if kind == 'scalar':
        pshape, tshape = (), ()
        ctx.hit('scalar point')
    elif kind == 'same':
        pshape = tshape = ctx.pick((5,), (1,), (2, 3))
        ctx.hit('many times')
    elif kind == 'one time':
        pshape, tshape = ctx.pick((6,), (2, 2)), ()
        ctx.hit('one time many points')
    else:
        pshape, tshape = (3, 4), ()
        ctx.hit('grid of points')
    n = int(np.prod(pshape)) if pshape else 1
    th = G.thetas(ctx, n, poles=poles).reshape(pshape)
    ph = G.phis(ctx, n).reshape(pshape)
    if not poles:
        th = np.clip(th, 1e-4, 180 - 1e-4)
    elif np.any((th == 0) | (th == 180)):
        ctx.hit('pole')
    if np.any(np.abs(np.remainder(ph, 360) - 180) < 1e-9):
        ctx.hit('date line')
    return th, ph, tshape


def arg(ctx, x):
    return float(x) if np.ndim(x) == 0 and ctx.chance(0.5) else x


def ranges(ctx, th, ph):
    th, ph = np.asarray(th), np.asarray(ph)
    ctx.check(np.all((th >= 0) & (th <= 180)), f'colatitude range {th}')
    ctx.check(np.all((ph > -180) & (ph <= 180)), f'longitude range {ph}')


def to_base(M, u, inverse):
    """Components of unit vectors in the frame with rows M (or back)."""
    M = M.astype(R.LD)
    return np.einsum('...ji,...j->...i' if inverse else '...ij,...j->...i',
                     M, u)


def same_direction(ctx, u, v, what):
    ctx.close(np.asarray(u, R.LD) - v, np.zeros(np.shape(v)), 1e-12, what)


def transform_pts(ctx):
    """transform_points describes the same direction in the other frame; inverse=True undoes it"""
    th, ph, tshape = points(ctx, True)
    ref, kw, time, M = frame(ctx, tshape)
    inv = ctx.chance(0.5)
    ctx.hit('inverse' if inv else 'forward')
    if inv:
        kw['inverse'] = True
    elif ctx.chance(0.3):
        kw['inverse'] = False
    if ctx.chance(0.08) and M.ndim == 2:
        # the pole of the target frame
        e = M.T[2] if inv else M[2]
        th = np.full(np.shape(th), np.degrees(np.arccos(np.clip(
            e[2], -1, 1))))
        ph = np.full(np.shape(th), np.degrees(np.arctan2(e[1], e[0])))
        ctx.hit('target pole')
    ctx.describe(theta=th, phi=ph, time=time, ref=ref, **kw)
    a, b = arg(ctx, th), arg(ctx, ph)
    t2, p2 = ctx.call(cu.transform_points, a, b, time, reference=ref, **kw)
    ctx.equal(np.shape(t2), np.shape(th), 'shape of theta')
    ctx.equal(np.shape(p2), np.shape(th), 'shape of phi')
    ranges(ctx, t2, p2)
    u = to_base(M, R.unit(th, ph), inv)
    same_direction(ctx, R.unit(t2, p2), u, 'direction in the other frame')
    kw['inverse'] = not inv
    t3, p3 = ctx.call(cu.transform_points, t2, p2, time, reference=ref, **kw)
    ctx.hit('round trip')
    ranges(ctx, t3, p3)
    same_direction(ctx, R.unit(t3, p3), R.unit(th, ph), 'round trip')


def far_from_poles(th, u):
    z = np.abs(u[..., 2].astype(float))
    return np.all(z < np.cos(np.radians(1e-4)))


def transform_vecs(ctx):
    """transform_vectors describes the same 3-D tangential vector in the other frame; inverse=True undoes it"""
    th, ph, tshape = points(ctx, False)
    ref, kw, time, M = frame(ctx, tshape)
    inv = ctx.chance(0.5)
    ctx.hit('inverse' if inv else 'forward')
    u = to_base(M, R.unit(th, ph), inv)
    if not far_from_poles(th, u):
        th = np.full(np.shape(th), 70.0)
        u = to_base(M, R.unit(th, ph), inv)
    if inv:
        kw['inverse'] = True
    Bt, Bp = ctx.rng.normal(size=(2,) + np.shape(th)) * 100
    if ctx.chance(0.2):
        Bt = Bt * 0
    elif ctx.chance(0.2):
        Bp = Bp * 0
    ctx.describe(theta=th, phi=ph, time=time, ref=ref, Bt=Bt, Bp=Bp, **kw)
    a, b = arg(ctx, th), arg(ctx, ph)
    if ctx.chance(0.5):
        kw.update(time=time)
        pos = ()
    else:
        pos = (time,)
    t2, p2, Bt2, Bp2 = ctx.call(cu.transform_vectors, a, b, Bt, Bp, *pos,
                                reference=ref, **kw)
    for k, x in (('theta', t2), ('phi', p2), ('B_theta', Bt2),
                 ('B_phi', Bp2)):
        ctx.equal(np.shape(x), np.shape(th), f'shape of {k}')
    ranges(ctx, t2, p2)
    same_direction(ctx, R.unit(t2, p2), u, 'direction in the other frame')
    # near a pole the angles are ill-conditioned: rounding 1e-14 / sin(theta)
    s = np.minimum(np.abs(np.sin(np.radians(np.asarray(th)))),
                   np.abs(np.sin(np.radians(np.asarray(t2)))))
    tol = (1e-12 + 3e-14 / s)[..., None] * 1e3
    v = to_base(M, cart(th, ph, Bt, Bp), inv)
    ctx.close(cart(t2, p2, Bt2, Bp2), v, tol, 'Cartesian vector')
    ctx.close(np.hypot(Bt2, Bp2), np.hypot(Bt, Bp), tol[..., 0],
              'length of the vector')
    kw['inverse'] = not inv
    t3, p3, Bt3, Bp3 = ctx.call(cu.transform_vectors, t2, p2, Bt2, Bp2, *pos,
                                reference=ref, **kw)
    ctx.hit('round trip')
    ctx.close(cart(t3, p3, Bt3, Bp3), cart(th, ph, Bt, Bp), 2 * tol,
              'round trip of the vector')


def generic(ctx):
    """geo_to_base and matrix_geo_to_base for arbitrary bases: direction, rotation matrix between the local bases"""
    kind = ctx.pick('single', 'per point', 'scalar')
    shape = () if kind == 'scalar' else ctx.pick((4,), (2, 3), (1,))
    n = int(np.prod(shape)) if shape else 1
    bshape = shape if kind == 'per point' else ()
    ctx.hit('base per point' if kind == 'per point' else 'single base')
    nb = n if bshape else 1
    M = np.stack([G.random_rotation(ctx) for _ in range(nb)]).reshape(
        bshape + (3, 3))
    mat = ctx.chance(0.6)
    th = G.thetas(ctx, n, poles=not mat).reshape(shape)
    ph = G.phis(ctx, n).reshape(shape)
    inv = ctx.chance(0.5)
    ctx.hit('inverse' if inv else 'forward')
    kw = dict(inverse=True) if inv else ctx.pick({}, dict(inverse=False),
                                                 dict(inverse=None))
    base = [M[..., i, :] for i in range(3)]
    ctx.describe(theta=th, phi=ph, M=M, **kw)
    a, b = arg(ctx, th), arg(ctx, ph)
    u = to_base(M, R.unit(th, ph), inv)
    if not mat:
        if np.any((th == 0) | (th == 180)):
            ctx.hit('pole')
        t2, p2 = ctx.call(cu.geo_to_base, a, b, *base, **kw)
        ctx.equal(np.shape(t2), shape, 'shape of theta')
        ranges(ctx, t2, p2)
        same_direction(ctx, R.unit(t2, p2), u, 'direction')
        t3, p3 = ctx.call(cu.geo_to_base, t2, p2, *base, inverse=not inv)
        same_direction(ctx, R.unit(t3, p3), R.unit(th, ph), 'round trip')
        return
    th = np.clip(th, 1e-4, 180 - 1e-4)
    a = arg(ctx, th)
    u = to_base(M, R.unit(th, ph), inv)
    if not far_from_poles(th, u):
        th = np.full(shape, 63.0)
        a = th
        u = to_base(M, R.unit(th, ph), inv)
        if not far_from_poles(th, u):
            ph = ph + 11.0
            b = ph
            u = to_base(M, R.unit(th, ph), inv)
    t2, p2, T = ctx.call(cu.matrix_geo_to_base, a, b, *base, **kw)
    ctx.equal(np.shape(T), shape + (3, 3), 'shape of the matrices')
    ranges(ctx, t2, p2)
    same_direction(ctx, R.unit(t2, p2), u, 'direction')
    A = np.stack(R.local_axes(th, ph))      # local axis, cartesian, points
    B = np.stack(R.local_axes(t2, p2))
    A, B = (np.moveaxis(x, (0, 1), (-2, -1)) for x in (A, B))
    Md = M.astype(R.LD)
    if inv:
        Md = np.swapaxes(Md, -1, -2)
    want = np.einsum('...ai,...ij,...bj->...ab', B, np.broadcast_to(
        Md, shape + (3, 3)), A)
    s = np.minimum(np.abs(np.sin(np.radians(np.asarray(th)))),
                   np.abs(np.sin(np.radians(np.asarray(t2)))))
    tol = (1e-12 + 3e-14 / s)[..., None, None] * 10
    ctx.close(T, want, tol, 'rotation between the local bases')
    T = np.asarray(T)
    ctx.close(T @ np.swapaxes(T, -1, -2), np.broadcast_to(
        np.eye(3), T.shape), tol, 'orthogonality')


FAMILIES = [Family('transform_points', transform_pts, 10000, 120000),
            Family('transform_vectors', transform_vecs, 10000, 120000),
            Family('generic', generic, 10000, 120000)]
