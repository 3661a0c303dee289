"""Workload generators shared by the property modules."""
import math

import numpy as np

from .core import cp
from . import refs as R


# -- positions --------------------------------------------------------------
def thetas(ctx, n, poles=True, lo=0.0, hi=180.0):
    """Colatitudes with hostile values mixed in."""
    rng = ctx.rng
    t = rng.uniform(lo, hi, n)
    special = [90.0, 90.0 + 1e-12, 45.0, 1e-3, 179.999, 1e-6, 180 - 1e-6,
               1e-9, 180 - 1e-9]
    if poles:
        special += [0.0, 180.0, 0.0, 180.0]
    for i in range(n):
        u = rng.random()
        if u < 0.25:
            t[i] = special[int(rng.integers(len(special)))]
        elif u < 0.3:
            d = 10.0 ** rng.uniform(-13, 0)
            t[i] = d if rng.random() < 0.5 else 180.0 - d
    t = np.clip(t, lo, hi)
    if not poles:
        t[t <= 0.0] = 1e-7
        t[t >= 180.0] = 180 - 1e-7
    if np.any(t == 0.0):
        ctx.hit('north pole')
    if np.any(t == 180.0):
        ctx.hit('south pole')
    if np.any((t > 0) & (t < 1e-5) | (t < 180) & (t > 180 - 1e-5)):
        ctx.hit('close to a pole')
    return t


def phis(ctx, n):
    rng = ctx.rng
    p = rng.uniform(-180, 360, n)
    special = [0.0, 180.0, -180.0, 360.0, 90.0, -90.0, 270.0, -0.0, 540.5,
               -719.25]
    for i in range(n):
        if rng.random() < 0.2:
            p[i] = special[int(rng.integers(len(special)))]
    return p


def coeff_vector(ctx, index):
    """Coefficients: dense, decaying with degree, sparse or one-hot."""
    n = len(index)
    kind = ctx.int(0, 3)
    c = ctx.rng.normal(size=n)
    if kind == 0:
        c *= np.array([1e4 * 0.6 ** k for k, _ in index])
    elif kind == 1:
        c = np.zeros(n)
        c[ctx.int(0, n - 1)] = ctx.pick(1.0, -3.5)
    elif kind == 2:
        c[ctx.rng.random(n) < 0.7] = 0.0
    return c


def layout(ctx, nhi=20):
    """(nmin, nmax, mmax) and the coefficient index list."""
    nmax = ctx.int(1, nhi)
    nmin = 1 if ctx.chance(0.5) else ctx.int(1, nmax)
    mmax = nmax if ctx.chance(0.5) else ctx.int(0, nmax)
    return nmin, nmax, mmax, R.coeff_index(nmin, nmax, mmax)


def radii(ctx, n, r_surf):
    rng = ctx.rng
    f = rng.uniform(0.6, 2.5, n)
    for i in range(n):
        u = rng.random()
        if u < 0.2:
            f[i] = 1.0
        elif u < 0.3:
            f[i] = rng.uniform(3, 12)
        elif u < 0.35:
            f[i] = 10 ** rng.uniform(-0.7, 1.3)
    return f * r_surf


def field_scale(index, coeffs, rho, source):
    """Bound of the field magnitude, for rounding tolerances."""
    n = np.array([k[0] for k in index], dtype=float)
    rho = np.asarray(rho, dtype=float)[..., None]
    p = rho ** (-(n + 2)) if source == 'internal' else rho ** (n - 1)
    return np.sum(np.abs(coeffs) * (n + 1) * p, axis=-1)


def ref_field(coeffs, r, theta, phi, index, source, r_surf):
    """Reference field for one coefficient vector per point or a shared one;
    all inputs already broadcast to the same point shape."""
    D = R.field_design(r, theta, phi, index, source, r_surf)
    c = np.asarray(coeffs, dtype=R.LD)
    return [np.sum(d * c, axis=-1) for d in D]


def eps_tol(nmax, scale, factor=1.0):
    return factor * 2e-14 * (nmax + 8) * (scale + 1e-300)


# -- times and splines --------------------------------------------------------
def breaks(ctx, pieces, lo=None, hi=None, irregular=None):
    if lo is None:
        lo, hi = ctx.pick((-2000., 9000.), (-2000., 9000.), (-2000., 9000.),
                          (-36000., -2000.), (-160000., -36000.))
    irregular = ctx.chance(0.6) if irregular is None else irregular
    start = ctx.uni(lo, hi)
    if irregular:
        steps = ctx.uni(1.0, 400.0, pieces) * ctx.pick(1.0, 0.1, 5.0)
    else:
        steps = np.full(pieces, ctx.pick(182.625, 365.25, 100.0, 913.125))
    b = start + np.concatenate([[0.0], np.cumsum(steps)])
    if ctx.chance(0.3):
        b = np.round(b, 1)
        b = np.unique(b)
        while b.size < pieces + 1:
            b = np.append(b, b[-1] + 50.0)
    if ctx.chance(0.1):
        b = b - b[int(ctx.rng.integers(b.size))]
        ctx.hit('break at zero')
    return b


def pp_coeffs(ctx, order, brk, dim, amp=1e3):
    """Coefficients whose terms have comparable size across the pieces."""
    h = np.diff(brk)
    h = np.where(h > 0, h, 1.0)
    c = ctx.rng.normal(size=(order, len(brk) - 1, dim)) * amp
    for k in range(order):
        c[k] /= h[:, None] ** (order - 1 - k)
    return c


def continuous_pp(ctx, order, brk, dim, amp=1e3):
    """Piecewise polynomial that is a C^(order-2) spline, via scipy."""
    from scipy.interpolate import BSpline, PPoly
    knots = np.r_[[brk[0]] * (order - 1), brk, [brk[-1]] * (order - 1)]
    co = ctx.rng.normal(size=(len(knots) - order, dim)) * amp
    c = np.empty((order, len(brk) - 1, dim))
    for d in range(dim):
        p = PPoly.from_spline(BSpline(knots, co[:, d], order - 1))
        c[:, :, d] = p.c[:, np.diff(p.x) > 0]
    return c


def times_in(ctx, brk, n, outside=0.0):
    """Times inside the breaks, often exactly on breaks or ends; a fraction
    outside if requested."""
    t = ctx.uni(brk[0], brk[-1], n)
    span = brk[-1] - brk[0] + 1.0
    for i in range(n):
        u = ctx.rng.random()
        if u < 0.2:
            t[i] = brk[int(ctx.rng.integers(len(brk)))]
            ctx.hit('time on a break')
        elif u < 0.25:
            t[i] = brk[0]
        elif u < 0.30:
            t[i] = brk[-1]
            ctx.hit('time at the end')
        elif u < 0.36 and brk[0] <= 0 <= brk[-1]:
            t[i] = 0.0
            ctx.hit('time zero')
        elif u < 0.42 and brk[0] <= np.round(t[i]) <= brk[-1]:
            t[i] = np.round(t[i])
    for i in range(n):
        if ctx.rng.random() < outside:
            d = ctx.pick(1e-6, 10 ** ctx.uni(-6, 0), 30.0, 0.3 * span, span)
            t[i] = brk[0] - d if ctx.chance(0.5) else brk[-1] + d
            ctx.hit('time outside the model')
    return t


# -- CHAOS models ---------------------------------------------------------------
def gsm_coeffs(ctx):
    g = np.zeros(8)
    g[[0, 3]] = ctx.rng.normal(size=2) * 20
    return g


def chaos_spec(ctx, n_tdep=None, n_static=None, static=True, external=True,
               euler=None, cal=None, order=None, pieces=None, own_bins=False):
    """Constructor arguments of a random CHAOS model."""
    rng = ctx.rng
    n_tdep = ctx.int(1, 6) if n_tdep is None else n_tdep
    n_static = ctx.int(1, 9) if n_static is None else n_static
    order = ctx.int(1, 6) if order is None else order
    pieces = ctx.int(1, 6) if pieces is None else pieces
    lo, hi = ctx.pick((-1000, 3000), (-1000, 3000), (-30000, 20000))
    brk = breaks(ctx, pieces, lo=lo, hi=hi)
    amp = np.array([1e4 * 0.4 ** n for n, _ in
                    R.coeff_index(1, n_tdep, n_tdep)])
    spec = dict(breaks=brk, order=order)
    spec['coeffs_tdep'] = pp_coeffs(ctx, order, brk, n_tdep * (n_tdep + 2),
                                    1.0) * amp
    if static:
        s = rng.normal(size=(1, 1, n_static * (n_static + 2))) * 30
        s[..., :min(n_tdep, n_static) * (min(n_tdep, n_static) + 2)] *= \
            float(ctx.pick(0.0, 1.0))
        spec['coeffs_static'] = s
    if external:
        spec['coeffs_gsm'] = gsm_coeffs(ctx)
        spec['coeffs_sm'] = rng.normal(size=8) * 10
        nb1, nb2 = ctx.int(1, 6), ctx.int(1, 6)
        nb3 = nb2
        lo, hi = brk[0] - 10.0, brk[-1] + 10.0

        def bins(nb):
            return np.concatenate([[lo], np.sort(rng.uniform(lo, hi, nb - 1)),
                                   [hi]])
        b1, b2 = bins(nb1), bins(nb2)
        b3 = b2.copy()
        if own_bins and ctx.chance(0.6):
            # every offset with its own bins and period
            if ctx.chance(0.5):
                nb3 = ctx.int(1, 6)
            lo, hi = lo + ctx.uni(-5, 5), hi + ctx.uni(-5, 5)
            b2 = bins(nb2)
            lo, hi = lo + ctx.uni(-4, 4), hi + ctx.uni(-4, 4)
            b3 = bins(nb3)
            ctx.hit('own offset bins')
        spec['breaks_delta'] = dict(q10=b1, q11=b2, s11=b3)
        spec['coeffs_delta'] = {
            k: rng.normal(size=(1, n)) * 5
            for k, n in (('q10', nb1), ('q11', nb2), ('s11', nb3))}
    if euler:
        eb, ec = {}, {}
        for name, nb in euler.items():
            eb[name] = np.sort(rng.uniform(-500, 4000, nb + 1))
            ec[name] = rng.normal(size=(1, nb, 3)) * 40
        spec['breaks_euler'], spec['coeffs_euler'] = eb, ec
        spec['meta'] = dict(
            params=dict(Euler_prerotation=rng.normal(size=(len(euler), 3))),
            satellites=tuple(euler))
    if cal:
        spec['breaks_cal'] = {'cryosat-2_1': np.sort(rng.uniform(0, 4000,
                                                                 cal + 1))}
        spec['coeffs_cal'] = {'cryosat-2_1': rng.normal(size=(1, cal, 9))}
    return spec


def copy_spec(spec):
    import copy
    return copy.deepcopy(spec)


def build_chaos(ctx, spec):
    s = copy_spec(spec)
    return ctx.call(cp.CHAOS, s.pop('breaks'), s.pop('order'), **s)


# -- RC index --------------------------------------------------------------------
def rc_table(ctx, start, end, step=None):
    """time, RC, RC_e, RC_i, flag columns covering [start, end]."""
    n = ctx.int(4, 60)
    t = np.linspace(start, end, n)
    if ctx.chance(0.5) and n > 2:
        t[1:-1] = np.sort(ctx.uni(start, end, n - 2))
    t = np.round(t, 6)
    t[0] -= 1e-6 * 2
    t[-1] += 1e-6 * 2
    t = np.unique(np.round(t, 6))
    e = np.round(ctx.rng.normal(size=t.size) * 30, 2)
    i = np.round(ctx.rng.normal(size=t.size) * 10, 2)
    flag = np.array([ctx.pick('D', 'P', 'Q') for _ in t])
    return dict(time=t, RC=np.round(e + i, 2), RC_e=e, RC_i=i, flag=flag)


def write_rc_dat(path, tab, comment=True):
    with open(path, 'w') as f:
        if comment:
            f.write('# RC index\n#   time RC RC_e RC_i flag\n')
        for k in range(len(tab['time'])):
            f.write(f"  {tab['time'][k]:.6f}  {tab['RC'][k]:8.2f} "
                    f"{tab['RC_e'][k]:8.2f}\t{tab['RC_i'][k]:8.2f}  "
                    f"{tab['flag'][k]}\n")


def write_rc_h5(path, tab):
    import h5py
    with h5py.File(path, 'w') as f:
        for k, v in tab.items():
            f.create_dataset(k, data=v.astype('S1') if k == 'flag' else v)


# -- rotations -------------------------------------------------------------------
def random_rotation(ctx):
    """Right-handed orthonormal rows."""
    q = ctx.rng.normal(size=4)
    if ctx.chance(0.15):
        q = np.array(ctx.pick([1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0],
                              [0, 0, 0, 1], [1, 1, 0, 0], [1, 0, 0, 1]),
                     dtype=float)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def dipole(ctx):
    """Dipole coefficients (g10, g11, h11)."""
    if ctx.chance(0.4):
        return np.array([-29442.0, -1501.0, 4797.1])
    d = ctx.rng.normal(size=3) * 5000
    d[0] -= ctx.pick(0.0, 30000.0)
    return d


def dipole_unit(d):
    """Unit vector of the dipole axis towards the north."""
    v = -np.array([d[1], d[2], d[0]], dtype=R.LD)
    return v / np.sqrt((v * v).sum())
