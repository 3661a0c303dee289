"""C13: Fourier spectra of the rotation matrices reproduce the matrices."""
import numpy as np

from ..core import cp, Family
from .. import refs as R, gens as G

cu = cp.coordinate_utils
REQUIRED = ['GSM', 'SM', 'odd N', 'even N', 'filtered', 'unfiltered',
            'scaled', 'unscaled', 'own qfunc', 'default qfunc',
            'own conductivity file', 'saved', 'start date', 'nmax > kmax',
            'nmax < kmax', 'other dipole', 'filter 1', 'default step',
            '1-D frequency', '3-D frequency', '0-d time', '3-d time',
            'used by a CHAOS model', 'default sampling', 'zero frequency']
ASSUMPTIONS = ['the Nyquist term of even N enters the synthesis once or twice '
               '(undocumented), so its amplitude is added to the tolerance']


def dft(x):
    """DFT/N along the first axis from the definition, non-negative k only."""
    N = x.shape[0]
    k = np.arange(N // 2 + 1)
    jk = np.outer(k, np.arange(N)) % N
    ph = 2 * R.PI * jk.astype(R.LD) / N
    xs = x.reshape(N, -1).astype(R.LD)
    out = (np.cos(ph) @ xs) - 1j * (np.sin(ph) @ xs)
    return (out / N).reshape((k.size,) + x.shape[1:])


def write_sigma(ctx):
    n = ctx.int(2, 5)
    d = np.concatenate([[0.0], np.sort(ctx.uni(10, 3000, n - 1))])
    p = ctx.path('sigma.dat')
    with open(p, 'w') as f:
        f.write('# depth (km), sigma (S/m)\n')
        for a, s in zip(d, 10 ** ctx.uni(-3, 1, n)):
            f.write(f'{a:.4f} {s:.6e}\n')
    return p


def qfuncs(ctx, nmax):
    """Keyword for rotate_gauss_fft and the response it stands for."""
    if ctx.chance(0.5):
        ctx.hit('own qfunc')
        a = ctx.rng.normal(size=(nmax * (nmax + 2), 4))

        def q(freq, k):
            f = freq * 86400.0
            return (a[k, 0] + 1j * a[k, 1] * f) / (1 + a[k, 2] ** 2 * f) \
                + a[k, 3] * 1j
        return dict(qfunc=q), q
    ctx.hit('default qfunc')
    if ctx.chance(0.5):
        ctx.hit('own conductivity file')
        cp.basicConfig['file.Earth_conductivity'] = write_sigma(ctx)

    def q(freq, k):
        n = 1
        while k >= n * (n + 2):
            n += 1
        return cu.q_response(freq, nmax)[n - 1]
    return {}, q


def kept(ctx, freq, spec, full, fday, nyq, scaled, what):
    """The kept terms are the strongest ones, with their DFT values."""
    nf = freq.shape[0]
    tol = 1e-11
    i = np.rint(freq / fday[1] if fday.size > 1 else freq * 0).astype(int)
    ctx.check(np.all((i >= 0) & (i < fday.size)), f'{what}: frequency range')
    ctx.close(freq, fday[i], 1e-9 * (fday[-1] + 1e-9), f'{what}: frequencies')
    s = np.sort(i, axis=0)
    ctx.check(np.all(np.diff(s, axis=0) > 0) if nf > 1 else True,
              f'{what}: repeated frequency')
    val = np.take_along_axis(full, i, axis=0)
    fac = np.where(i == 0, 1, 2) if scaled else np.ones(i.shape)
    slack = np.where(i == nyq, np.abs(val), 0).astype(float)
    size = 1 + np.abs(full).max(axis=0)
    ctx.close(spec, fac * val, (tol * size + slack).astype(float),
              f'{what}: Fourier components')
    amp = np.sort(np.abs(full), axis=0)[::-1][:nf]
    ctx.close(np.sort(np.abs(val), axis=0)[::-1], amp, 1e-10 * size.astype(
        float), f'{what}: strongest terms')


def transform(ctx):
    """rotate_gauss_fft against the DFT of the matrices at the sample times, filtering, induced response, npz file"""
    nmax, kmax = ctx.int(1, 3), ctx.int(1, 3)
    if nmax != kmax:
        ctx.hit('nmax > kmax' if nmax > kmax else 'nmax < kmax')
    N = ctx.int(2, 40)
    if nmax * kmax < 3 and ctx.chance(0.05):
        ctx.hit('long series')
        N = ctx.pick(200, 365, 1025)
    ctx.hit('odd N' if N % 2 else 'even N')
    kw = dict(N=N)
    step = 1.0
    if ctx.chance(0.8):
        step = kw['step'] = ctx.pick(1.0, 3.0, 0.5, 24.0, 6.25,
                                     float(ctx.uni(0.1, 30)))
    else:
        ctx.hit('default step')
    start = 0.0
    if ctx.chance(0.5):
        start = kw['start_date'] = ctx.pick(100.0, -2000.25, float(
            ctx.uni(-5000, 9000)))
        ctx.hit('start date')
    scaled = ctx.chance(0.5)
    if scaled or ctx.chance(0.5):
        kw['scaled'] = scaled
    ctx.hit('scaled' if scaled else 'unscaled')
    nf = N // 2 + 1
    if ctx.chance(0.5):
        nf = kw['filter'] = ctx.int(1, N // 2 + 1)
        if nf == 1:
            ctx.hit('filter 1')
    ctx.hit('filtered' if nf < N // 2 + 1 else 'unfiltered')
    ref = ctx.pick('gsm', 'sm', 'GSM', 'SM', None)
    if ref is not None:
        kw['reference'] = ref
    ref = str(ref or 'gsm')
    ctx.hit(ref.upper())
    if ctx.chance(0.3):
        ctx.hit('other dipole')
        cp.basicConfig['params.dipole'] = np.round(G.dipole(ctx), 1)
    qkw, q = qfuncs(ctx, nmax)
    kw.update(qkw)
    ctx.describe(nmax=nmax, kmax=kmax,
                 dipole=cp.basicConfig['params.dipole'],
                 **{k: v for k, v in kw.items() if k != 'qfunc'})
    if ctx.chance(0.5):
        kw['save_to'] = ctx.path(ctx.pick('s.npz', 's'))
        ctx.hit('saved')
    out = ctx.call(cu.rotate_gauss_fft, nmax, kmax, **kw)
    freq, spec, freq_i, spec_i = out
    shape = (nf, nmax * (nmax + 2), kmax * (kmax + 2))
    for x in out:
        ctx.equal(np.shape(x), shape, 'shape of the output')
    t = start + np.arange(N) * (step / 24.0)
    base = {'gsm': cu.basevectors_gsm, 'sm': cu.basevectors_sm}[ref.lower()]
    M = ctx.call(cu.rotate_gauss, nmax, kmax, *ctx.call(base, t))
    X = dft(M)
    nyq = N // 2 if N % 2 == 0 else -1
    fday = np.arange(N // 2 + 1) / (N * step / 24.0)
    kept(ctx, freq, spec, X, fday, nyq, scaled, 'spectrum')
    Q = np.stack([q(fday / 86400.0, k) for k in range(shape[1])], axis=1)
    kept(ctx, freq_i, spec_i, X * Q[:, :, None], fday, nyq, scaled,
         'induced spectrum')
    # synthesis at times counted from the start
    got = ctx.call(cu.synth_rotate_gauss, t - start, freq, spec, scaled)
    if nf == N // 2 + 1:
        slack = np.abs(X[nyq]).astype(float) if nyq >= 0 else 0.0
        ctx.close(got, M, 1e-9 + slack, 'synthesised matrices')
    # the discarded power bounds the error of the filtered synthesis
    kwo = dict(kw, scaled=not scaled)
    kwo.pop('save_to', None)
    o2 = ctx.call(cu.rotate_gauss_fft, nmax, kmax, **kwo)
    ctx.close(ctx.call(cu.synth_rotate_gauss, t - start, o2[0], o2[1],
                       not scaled), got, 1e-9, 'scaled versus unscaled')
    if 'save_to' in kw:
        p = kw['save_to']
        p = p if p.endswith('.npz') else p + '.npz'
        with np.load(p) as f:
            for k, x in zip(('frequency', 'spectrum', 'frequency_ind',
                             'spectrum_ind'), out):
                ctx.equal(f[k], np.asarray(x), f'saved {k}')
            ctx.equal(float(f['step']), float(step), 'saved step')
            ctx.equal(int(f['N']), N, 'saved N')
            ctx.equal(int(f['filter']), nf, 'saved filter')
            ctx.equal(str(f['reference']).lower(), ref.lower(),
                      'saved reference')
            ctx.equal(bool(f['scaled']), scaled, 'saved scaled')
            ctx.equal(float(f['start_date']), start, 'saved start_date')
            ctx.equal(f['dipole'], np.asarray(
                cp.basicConfig['params.dipole']), 'saved dipole')


def defaults(ctx):
    """documented default sampling: 8 years of hourly matrices, all frequencies; degree one is the base-vector matrix"""
    ctx.hit('default sampling')
    ref = ctx.pick('gsm', 'sm')
    N = int(8 * 365.25 * 24)
    q = complex(*ctx.rng.normal(size=2))
    kw = dict(qfunc=lambda f, k: q * np.ones(np.shape(f)), reference=ref)
    nf = N // 2 + 1
    if ctx.chance(0.5) or ctx.tier == 'quick':
        nf = kw['filter'] = ctx.int(3, 40)
    start = 0.0
    if ctx.chance(0.5):
        start = kw['start_date'] = float(ctx.uni(-5000, 5000))
    ctx.describe(**{k: v for k, v in kw.items() if k != 'qfunc'})
    freq, spec, freq_i, spec_i = ctx.call(cu.rotate_gauss_fft, 1, 1, **kw)
    ctx.equal(np.shape(spec), (nf, 3, 3), 'number of frequencies')
    t = start + np.arange(N) / 24.0
    base = {'gsm': cu.basevectors_gsm, 'sm': cu.basevectors_sm}[ref]
    e1, e2, e3 = ctx.call(base, t)
    M = np.stack([e3, e1, e2], axis=-1)[:, [2, 0, 1], :]
    X = np.fft.rfft(M, axis=0) / N
    fday = np.arange(N // 2 + 1) / (N / 24.0)
    kept(ctx, freq, spec, X, fday, N // 2, False, 'spectrum')
    kept(ctx, freq_i, spec_i, X * q, fday, N // 2, False, 'induced spectrum')


def usable(ctx):
    """a saved spectrum drives CHAOS.synth_coeffs_gsm/sm like the matrices it was made from"""
    ctx.hit('used by a CHAOS model')
    ref = ctx.pick('gsm', 'sm')
    N = 2 * ctx.int(3, 12) + 1
    step = ctx.pick(1.0, 2.5, 6.0)
    scaled = ctx.chance(0.5)
    cp.basicConfig['params.dipole'] = np.round(G.dipole(ctx), 1)
    qkw, q = qfuncs(ctx, 2)
    p = ctx.path('s.npz')
    ctx.call(cu.rotate_gauss_fft, 2, 2, N=N, step=step, reference=ref,
             scaled=scaled, save_to=p, **qkw)
    cp.basicConfig[f'file.{ref.upper()}_spectrum'] = p
    spec = G.chaos_spec(ctx)
    for k in spec['coeffs_delta']:
        spec['coeffs_delta'][k][:] = 0
    m = G.build_chaos(ctx, spec)
    t = np.arange(N) * (step / 24.0)
    base = {'gsm': cu.basevectors_gsm, 'sm': cu.basevectors_sm}[ref]
    M = ctx.call(cu.rotate_gauss, 2, 2, *ctx.call(base, t))
    fday = np.arange(N // 2 + 1) / (N * step / 24.0)
    Q = np.stack([q(fday / 86400.0, k) for k in range(8)], axis=1)
    X = dft(M)
    w = np.where(fday > 0, 2, 1)
    E = np.exp(2j * np.pi * np.outer(t, fday)) * w
    Mi = np.einsum('tf,fkl->tkl', E, (X * Q[:, :, None]).astype(complex)).real
    ctx.describe(ref=ref, N=N, step=step, scaled=scaled)
    if ref == 'gsm':
        c = spec['coeffs_gsm']
        ctx.close(ctx.call(m.synth_coeffs_gsm, t, source='external'), M @ c,
                  1e-8 * (1 + np.abs(c).sum()), 'external GSM coefficients')
        ctx.close(ctx.call(m.synth_coeffs_gsm, t, source='internal'), Mi @ c,
                  1e-8 * (1 + np.abs(c).sum()) * (1 + np.abs(Q).max()),
                  'induced GSM coefficients')
    else:
        c = spec['coeffs_sm'].copy()
        ctx.close(ctx.call(m.synth_coeffs_sm, t, source='external', rc=1.0),
                  M @ c, 1e-8 * (1 + np.abs(c).sum()),
                  'external SM coefficients')
        c[:3] = 0
        ctx.close(ctx.call(m.synth_coeffs_sm, t, source='internal', rc=0.0),
                  Mi @ c, 1e-8 * (1 + np.abs(c).sum()) * (1 + np.abs(Q).max()),
                  'induced SM coefficients')


def synthesis(ctx):
    """synth_rotate_gauss is the real part of the Fourier sum for every time shape and frequency layout"""
    k = ctx.int(1, 6)
    a, b = ctx.int(1, 8), ctx.int(1, 8)
    tshape = ctx.pick((), (1,), (5,), (2, 3), (2, 1, 3))
    ctx.hit(f'{len(tshape)}-d time')
    t = np.asarray(ctx.uni(-4000, 9000, tshape))
    if ctx.chance(0.2):
        t = np.round(t)
    one = ctx.chance(0.4)
    ctx.hit('1-D frequency' if one else '3-D frequency')
    f = ctx.uni(0, 4, (k,) if one else (k, a, b))
    f[ctx.rng.random(f.shape) < 0.3] = 0.0
    if np.any(f == 0):
        ctx.hit('zero frequency')
    s = ctx.rng.normal(size=(k, a, b)) + 1j * ctx.rng.normal(size=(k, a, b))
    sc = ctx.pick(True, False, None)
    kw = {} if sc is None and ctx.chance(0.5) else dict(scaled=sc)
    ctx.describe(time=t, frequency=f, spectrum=s, **kw)
    got = ctx.call(cu.synth_rotate_gauss, t, f, s, **kw)
    F = f.reshape(-1, 1, 1) if one else f
    w = 1.0 if sc else np.where(F > 0, 2.0, 1.0)
    want = np.empty(tshape + (a, b))
    for i in np.ndindex(tshape):
        ph = 2 * R.PI * np.remainder(F.astype(R.LD) * R.LD(t[i]), 1)
        want[i] = np.sum(w * (s.real * np.cos(ph) - s.imag * np.sin(ph)), 0)
    ctx.close(got, want, 1e-9 * k, 'Fourier sum')


FAMILIES = [Family('transform', transform, 1040, 12000),
            Family('defaults', defaults, 2, 16),
            Family('usable', usable, 240, 2400),
            Family('synthesis', synthesis, 6000, 60000)]
