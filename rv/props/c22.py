"""C22: induction response functions solve the 1-D induction problem."""
import numpy as np
import scipy.special as sp

from ..core import cp, Family
from .. import refs as R, gens as G

cu = cp.coordinate_utils
REQUIRED = ['quadratic', 'constant', 'kind default', 'one layer',
            'many layers', 'high degree', 'power series', 'finite series',
            'insulating layer', 'thin layer', 'conducting core',
            'perfect conductor limit', 'insulator limit', 'split layer',
            'zero frequency', 'config file', 'rewritten config file',
            'one layer in the file', 'two config files', 'ODE integration',
            'wrong kind', 'matrix of periods', 'matrix of sigma', 'scalar period',
            'negative frequency', 'list of periods', 'small deep radius', 'shell-core limit']
MU0 = 4e-7 * np.pi
CL = np.clongdouble


# -- oracle --------------------------------------------------------------------
def log_deriv_quadratic(T, sigma, radius, n):
    """r u'/u at the surface of layers sigma_k (r_k/r)^2, where
    u'' = (n(n+1)/r^2 + i omega mu sigma(r)) u and u is regular at 0."""
    w = 2 * R.PI / np.asarray(T, R.LD)
    y = None
    for k in range(len(sigma) - 1, -1, -1):
        rk = R.LD(radius[k]) * 1000
        b = np.sqrt(R.LD(n + 0.5) ** 2
                    + CL(1j) * w * R.LD(4e-7) * R.PI * R.LD(sigma[k]) * rk**2)
        if y is None:
            y = R.LD(0.5) + b
            continue
        # u = r^(1/2) (A r^b + B r^-b) in the layer
        L = np.log(R.LD(radius[k]) / R.LD(radius[k + 1]))
        e = np.exp(-2 * b * L)
        refl = (b - (y - R.LD(0.5))) / (b + (y - R.LD(0.5)))   # B/A at bottom
        y = R.LD(0.5) + b * (1 - refl * e) / (1 + refl * e)
    return y


def log_deriv_constant(T, sigma, radius, n):
    """The same for layers of constant sigma around a perfectly conducting
    core of radius radius[-1]."""
    w = 2 * np.pi / np.asarray(T, float)
    nu = n + 0.5
    y = None
    for k in range(len(radius) - 2, -1, -1):
        kap = np.sqrt(1j * w * MU0 * sigma[k])
        z0, z1 = kap * radius[k] * 1000, kap * radius[k + 1] * 1000

        def logs(z):
            li = 0.5 + z * (sp.ive(nu + 1, z) / sp.ive(nu, z)) + nu
            lk = 0.5 - z * (sp.kve(nu - 1, z) / sp.kve(nu, z)) - nu
            return li, lk
        a0, c0 = logs(z0)
        a1, c1 = logs(z1)
        # ive = I exp(-|Re z|), kve = K exp(z)
        E = (sp.ive(nu, z1) / sp.ive(nu, z0) * sp.kve(nu, z0)
             / sp.kve(nu, z1)) * np.exp(-2 * (z0 - z1).real
                                        - 1j * (z0 - z1).imag)
        refl = -1.0 if y is None else -(a1 - y) / (c1 - y)
        y = (a0 + c0 * refl * E) / (1 + refl * E)
    return y


def responses(y, T, a, n):
    """C, rho_a, phase and Q from y = a u'/u."""
    C = a / y
    w = 2 * np.pi / np.asarray(T, float)
    rho = w * MU0 * np.abs(C * 1000) ** 2
    phi = 90 + np.degrees(np.angle(np.asarray(C, complex)))
    Q = R.LD(n) / (n + 1) * (1 - (n + 1) * C / a) / (1 + n * C / a)
    return C, rho, phi, Q


def judge(ctx, got, want, rel, what):
    C, rho, phi, Q = got
    for g in got:
        ctx.equal(np.shape(g), np.shape(want[0]), f'{what}: shape')
    ctx.check(not np.iscomplexobj(rho), f'{what}: rho_a is complex')
    ctx.close(C, want[0], rel * np.abs(want[0]).astype(float), f'{what}: C')
    ctx.close(rho, want[1], 2 * rel * np.abs(want[1]).astype(float)
              + 1e-14 * np.abs(want[1]).astype(float), f'{what}: rho_a')
    # the library uses 57.3 degrees per radian
    ctx.close(phi, want[2], 0.008, f'{what}: phase')
    ctx.close(Q, want[3], rel * 4 + 1e-13, f'{what}: Q')


def earth(ctx, n_layers):
    """Radii (decreasing, km) and conductivities."""
    top = float(ctx.pick(6371.2, 6371.2, ctx.uni(1000, 9000)))
    lo = ctx.pick(0.5, 0.5, 0.05)
    if lo < 0.1 and n_layers > 1:
        ctx.hit('small deep radius')
    f = np.sort(ctx.uni(lo, 1.0, n_layers - 1))[::-1]
    r = top * np.concatenate([[1.0], f])
    if ctx.chance(0.3) and n_layers > 1:
        ctx.hit('thin layer')
        r[1] = top - ctx.pick(1.0, 0.1, 5.0)
    r = np.sort(r)[::-1].copy()
    s = 10 ** ctx.uni(-5, 1.5, n_layers)
    if ctx.chance(0.3):
        s[-1] = 1e5
        ctx.hit('conducting core')
    return r, s


def setup(ctx):
    k = ctx.pick(1, 2, 3, 5, 8, 20, 46)
    ctx.hit('one layer' if k == 1 else 'many layers' if k > 8 else 'layers')
    r, s = earth(ctx, k)
    n = ctx.pick(1, 1, 2, 3, ctx.int(1, 6), ctx.int(6, 14))
    if n > 6:
        ctx.hit('high degree')
    T = 10 ** ctx.uni(ctx.pick(1, 3, 5), ctx.pick(8, 9.5), ctx.int(1, 6) if ctx.chance(
        0.99) else ctx.pick(50, 300))
    return r, s, n, T


def periods(ctx, T):
    if ctx.chance(0.15):
        ctx.hit('list of periods')
        return T.tolist()
    return T


def quadratic(ctx):
    """layers of conductivity decaying as 1/r^2"""
    r, s, n, T = setup(ctx)
    ctx.hit('quadratic')
    if ctx.chance(0.15):
        ctx.hit('insulating layer')
        s[ctx.int(0, s.size - 1)] = 0.0
    kw = {}
    if ctx.chance(0.5):
        kw['kind'] = ctx.pick('quadratic', None)
    if not kw.get('kind'):
        ctx.hit('kind default')
    ctx.describe(r=r, s=s, n=n, T=T)
    got = ctx.call(cu.q_response_1D, periods(ctx, T), s, r, n, **kw)
    want = responses(log_deriv_quadratic(T, s, r, n), T, r[0], n)
    judge(ctx, got, want, 1e-9, 'quadratic layers')
    if ctx.chance(0.2):
        # one physical layer described by two
        ctx.hit('split layer')
        k = ctx.int(0, r.size - 1)
        lo = r[k + 1] if k + 1 < r.size else 0.3 * r[k]
        mid = lo + ctx.uni(0.1, 0.9) * (r[k] - lo)
        r2 = np.insert(r, k + 1, mid)
        s2 = np.insert(s, k + 1, s[k] * (r[k] / mid) ** 2)
        two = ctx.call(cu.q_response_1D, T, s2, r2, n, kind='quadratic')
        judge(ctx, two, want, 1e-9, 'split layer')
    if ctx.chance(0.15):
        ctx.hit('insulator limit')
        C, _, _, Q = ctx.call(cu.q_response_1D, np.array([1e22]),
                              np.minimum(s, 10.0), r, n)
        ctx.close(C[0], r[0] / (n + 1), 1e-6 * r[0], 'C at long periods')
        ctx.close(Q[0], 0.0, 1e-6, 'Q at long periods')
    if ctx.chance(0.15):
        ctx.hit('perfect conductor limit')
        C, _, _, Q = ctx.call(cu.q_response_1D, np.array([1e-6]),
                              np.maximum(s, 1e-2), r, n)
        ctx.close(Q[0], n / (n + 1), 2e-3 * n, 'Q at short periods')
        d = np.sqrt(2 * 1e-6 / (2 * np.pi * MU0 * max(s[0], 1e-2))) / 1e3
        if r.size == 1 or d < 0.1 * (r[0] - r[1]):
            ctx.close(C[0], d / 2 * (1 - 1j), 0.05 * d,
                      'C at short periods (skin depth)')


def accuracy(r, n):
    """The library sums its Bessel series to 1e-10 of the terms; thin layers
    amplify this by the ratio of radius and thickness."""
    return 5e-7 + 1e-9 * (n + 1) * r[0] / np.min(-np.diff(r))


def constant(ctx):
    """layers of constant conductivity around a perfectly conducting core"""
    r, s, n, T = setup(ctx)
    if r.size == 1:
        r, s = np.append(r, 0.55 * r[0]), np.append(s, s)
    ctx.hit('constant')
    z0 = np.abs(np.sqrt(2j * np.pi * MU0 * s[0] / T)) * r[0] * 1000
    if np.any(z0 < 3):
        ctx.hit('power series')
    if np.any(z0 > 3):
        ctx.hit('finite series')
    ctx.describe(r=r, s=s, n=n, T=T)
    got = ctx.call(cu.q_response_1D, periods(ctx, T), s, r, n,
                   kind='constant')
    want = responses(log_deriv_constant(T, s, r, n), T, r[0], n)
    judge(ctx, got, want, accuracy(r, n), 'constant layers')
    if ctx.chance(0.3):
        # the conductivity of the core does not matter
        s2 = s.copy()
        s2[-1] = ctx.pick(0.0, 1e-3, np.inf, 1e9)
        two = ctx.call(cu.q_response_1D, T, s2, r, n, kind='constant')
        judge(ctx, two, want, accuracy(r, n), 'core conductivity')
    if ctx.chance(0.2):
        ctx.hit('split layer')
        k = ctx.int(0, r.size - 2)
        mid = r[k + 1] + ctx.uni(0.1, 0.9) * (r[k] - r[k + 1])
        r2 = np.insert(r, k + 1, mid)
        two = ctx.call(cu.q_response_1D, T, np.insert(s, k + 1, s[k]), r2, n,
                       kind='constant')
        judge(ctx, two, want, accuracy(r2, n), 'split layer')
    if ctx.chance(0.15):
        ctx.hit('shell-core limit')
        _, _, _, Q = ctx.call(cu.q_response_1D, np.array([1e14]),
                              np.minimum(s, 10.), r, n, kind='constant')
        ctx.close(Q[0], n / (n + 1) * (r[-1] / r[0]) ** (2 * n + 1), 1e-4,
                  'Q of an insulating mantle')


def ode(ctx):
    """direct integration of the induction equation through the layers"""
    from scipy.integrate import solve_ivp
    ctx.hit('ODE integration')
    k = ctx.int(2, 4)
    r = np.sort(ctx.uni(3000, 6300, k))[::-1].copy()
    s = 10 ** ctx.uni(-3, 0.5, k)
    n, T = ctx.int(1, 5), float(10 ** ctx.uni(4.5, 8))
    w = 2 * np.pi / T
    kind = ctx.pick('quadratic', 'constant')
    ctx.describe(r=r, s=s, n=n, T=T, kind=kind)
    C, rho, phi, Q = ctx.call(cu.q_response_1D, np.array([T]), s, r, n,
                              kind=kind)
    # integrate v = u/(u' r) from the bottom up; dv/dx with x = log r
    if kind == 'constant':
        v = 0j
    else:
        v = 1 / (0.5 + np.sqrt((n + 0.5) ** 2
                 + 1j * w * MU0 * s[-1] * (r[-1] * 1e3) ** 2))
    for j in range(k - 2, -1, -1):
        def rhs(x, v):
            rr = np.exp(x) * 1e3
            f = s[j] * rr ** 2 if kind == 'constant' else \
                s[j] * (r[j] * 1e3) ** 2
            return 1 - v - v * v * (n * (n + 1) + 1j * w * MU0 * f)
        sol = solve_ivp(rhs, (np.log(r[j + 1]), np.log(r[j])),
                        np.array([v], complex), method='DOP853', rtol=1e-10,
                        atol=1e-13)
        v = sol.y[0, -1]
    ctx.close(C[0], v * r[0], 1e-6 * abs(v) * r[0],
              f'{kind}: C against the integrated equation')


def config_file(ctx):
    """q_response uses the configured file for degrees 1..nmax; zero at zero frequency"""
    files = [(cp.basicConfig['file.Earth_conductivity'], '')]
    for i in range(ctx.int(0, 2)):
        r, s = earth(ctx, ctx.int(1, 6))
        d = np.sort(6371.2 - r / r[0] * 6371.2)
        text = '# depth sigma\n'
        for x, y in zip(d, s):
            text += f'{float(x)!r}{ctx.pick(" ", chr(9), "   ")}{float(y)!r}\n'
        files.append((ctx.path(ctx.pick(f'sigma{i}.dat', 'sigma.dat')), text))
    if len(files) > 1:
        ctx.hit('two config files')
    if len(files) > len({p for p, _ in files}):
        ctx.hit('rewritten config file')
    f = 10 ** ctx.uni(ctx.pick(-9, -9, -14), -4, ctx.int(1, 5)
                if ctx.chance(0.8) else ctx.pick(6, 9, 12, 20, 33, 99, 150))
    if ctx.chance(0.6):
        ctx.hit('zero frequency')
        f[ctx.int(0, f.size - 1)] = 0.0
    if ctx.chance(0.1):
        ctx.hit('negative frequency')
        f[ctx.int(0, f.size - 1)] *= -1
    nmax = ctx.int(1, 5)
    ctx.describe(f=f, nmax=nmax)
    for p, text in files:
        if text:
            with open(p, 'w') as out:
                out.write(text)
        cp.basicConfig['file.Earth_conductivity'] = p
        m = np.loadtxt(p, ndmin=2)
        ctx.hit('one layer in the file' if m.shape[0] == 1 else 'config file')
        got = ctx.call(cu.q_response, f, nmax)
        ctx.equal(np.shape(got), (nmax, f.size), 'shape')
        ok = f > 0
        ctx.check(np.all(got[:, ~ok] == 0), 'Q at zero frequency')
        for n in range(1, nmax + 1):
            if ok.any():
                r = 6371.2 - m[:, 0]
                want = responses(log_deriv_quadratic(
                    1 / f[ok], m[:, 1], r, n), 1 / f[ok], r[0], n)[3]
                ctx.close(got[n - 1][ok], want, 1e-8, f'Q of degree {n}')


def legal(ctx):
    """inputs of other kinds: scalars, illegal options and shapes"""
    r, s, n, T = setup(ctx)
    if r.size == 1:
        r, s = np.append(r, 0.55 * r[0]), np.append(s, s)
    kind = ctx.pick('quadratic', 'constant')
    ctx.describe(r=r, s=s, n=n, T=T, kind=kind)
    full = cu.q_response_1D(T, s, r, n, kind=kind)
    ctx.hit('scalar period')
    one = ctx.call(cu.q_response_1D, float(T[0]), s, r, n, kind=kind)
    for a, b in zip(one, full):
        ctx.close(np.ravel(a), b[:1], 1e-12 * np.abs(b[:1]), 'scalar period')
    # each period on its own
    perm = ctx.rng.permutation(T.size)
    for a, b in zip(ctx.call(cu.q_response_1D, T[perm], s, r, n, kind=kind),
                    full):
        ctx.close(a, b[perm], 1e-12 * np.abs(b[perm]), 'permuted periods')
    ctx.hit('wrong kind', 'matrix of periods', 'matrix of sigma')
    ctx.rejects(cu.q_response_1D, T, s, r, n, kind=ctx.pick(
        'linear', 'Quadratic', '', 1))
    ctx.rejects(cu.q_response_1D, np.ones((2, 2)) * 1e6, s, r, n, kind=kind)
    ctx.rejects(cu.q_response_1D, T, np.stack([s, s]), r, n, kind=kind)


FAMILIES = [Family('quadratic', quadratic, 10000, 120000),
            Family('constant', constant, 4800, 48000),
            Family('ode', ode, 600, 6000),
            Family('config_file', config_file, 2000, 20000),
            Family('legal', legal, 2000, 20000)]
