"""C11: external coefficients are the rotated GSM/SM expansions driven by RC."""
import os
import pickle
import shutil
import subprocess
import sys

import numpy as np

from ..core import cp, Family
from .. import refs as R, gens as G

REQUIRED = ['builtin spectrum', 'own spectrum', 'scaled', 'unscaled',
            'external', 'internal', 'RC argument', 'RC h5', 'RC dat',
            'time on a bin break', 'outside the bins', 'at RC epoch',
            'outside the RC file', 'other dipole rejected',
            'other dipole accepted', 'nmax 1', 'no static field',
            'RC file changed between calls', 'd-dim time',
            'own offset bins', 'RC file of the package',
            'spectrum changed between calls']
NOTE = 'Geometric agreement is checked to the accuracy of the built-in ' \
       '(filtered, 20-term) spectra only.'
CACHE = {}


def load(path):
    if path not in CACHE:
        with np.load(path) as f:
            CACHE[path] = {k: np.array(f[k]) for k in f.files}
    return CACHE[path]


def fourier(spec, t, ind):
    """Real part of the Fourier sum at scalar t, long double phases."""
    f = spec['frequency_ind' if ind else 'frequency'].astype(R.LD)
    s = spec['spectrum_ind' if ind else 'spectrum'].astype(np.clongdouble)
    ph = 2 * R.PI * np.remainder(f * R.LD(t), 1)
    w = np.ones(f.shape)
    if not spec['scaled']:
        w = np.where(f > 0, 2.0, 1.0)
    return np.sum(w * (s.real * np.cos(ph) - s.imag * np.sin(ph)), axis=0)


def own_spectrum(ctx, name):
    """Spectra as rotate_gauss_fft saves them, with random content."""
    k = ctx.int(1, 5)
    f = np.round(ctx.uni(0, 3, (k, 8, 8)), 3)
    f[ctx.rng.random(f.shape) < 0.2] = 0.0
    f2 = np.round(ctx.uni(0, 3, (k, 8, 8)), 3)
    c = [ctx.rng.normal(size=(k, 8, 8)) + 1j * ctx.rng.normal(size=(k, 8, 8))
         for _ in range(2)]
    sc = ctx.chance(0.5)
    ctx.hit('scaled' if sc else 'unscaled')
    dip = cp.basicConfig['params.dipole']
    path = ctx.path(name)
    np.savez(path, frequency=f, spectrum=c[0], frequency_ind=f2,
             spectrum_ind=c[1], step=1., N=10, filter=k, reference='x',
             scaled=sc, dipole=dip, start_date=0.)
    return path


def spectra(ctx):
    """Configured spectra: built-in or own files."""
    out = {}
    for ref in ('GSM', 'SM'):
        key = f'file.{ref}_spectrum'
        if ctx.chance(0.4):
            ctx.hit('own spectrum')
            cp.basicConfig[key] = own_spectrum(ctx, ref + '.npz')
            CACHE.pop(cp.basicConfig[key], None)
        else:
            ctx.hit('builtin spectrum', 'scaled')
        out[ref] = load(cp.basicConfig[key])
    return out


def other_spectrum(ctx, ref):
    """Another spectrum between two calls: another file or a new content."""
    ctx.hit('spectrum changed between calls')
    p = own_spectrum(ctx, ref + ctx.pick('.npz', '2.npz'))
    CACHE.pop(p, None)
    cp.basicConfig[f'file.{ref}_spectrum'] = p
    return load(p)


def bin_value(brk, co, t):
    i = int(np.searchsorted(brk, t, side='right')) - 1
    return co[0, min(max(i, 0), co.shape[1] - 1)]


def times(ctx, spec, lo, hi):
    shape = ctx.pick((), (1,), (4,), (2, 2), (2, 1), (1, 2))
    if len(shape) > 1:
        ctx.hit('d-dim time')
    n = int(np.prod(shape)) if shape else 1
    t = ctx.uni(lo, hi, n)
    for i in range(n):
        if ctx.chance(0.3):
            b = spec['breaks_delta'][ctx.pick('q10', 'q11', 's11')]
            t[i] = b[ctx.int(0, b.size - 1)]
            ctx.hit('time on a bin break')
    b = spec['breaks_delta']['q10']
    if np.any((t < b[0]) | (t > b[-1])):
        ctx.hit('outside the bins')
    return t.reshape(shape)


def expected_sm(spec, S, t, source, rc):
    """SM coefficients by the definition at one time."""
    d = np.array([bin_value(spec['breaks_delta'][k], spec['coeffs_delta'][k],
                            t) for k in ('q10', 'q11', 's11')])
    sm = spec['coeffs_sm']
    if source == 'external':
        return fourier(S, t, False) @ np.r_[rc * sm[:3] + d, sm[3:]]
    c = fourier(S, t, True) @ np.r_[d, sm[3:]]
    c[:3] = c[:3] + fourier(S, t, False)[:3, :3] @ (rc * sm[:3])
    return c


def setup(ctx):
    if ctx.chance(0.15):
        # another dipole, spectra computed for it: accepted
        ctx.hit('other dipole accepted')
        cp.basicConfig['params.dipole'] = np.array([-30000., 1000., 5000.])
        for ref in ('GSM', 'SM'):
            p = own_spectrum(ctx, ref + '.npz')
            CACHE.pop(p, None)
            cp.basicConfig[f'file.{ref}_spectrum'] = p
        S = {ref: load(cp.basicConfig[f'file.{ref}_spectrum'])
             for ref in ('GSM', 'SM')}
    else:
        S = spectra(ctx)
    spec = G.chaos_spec(ctx, own_bins=True)
    if ctx.chance(0.3):
        del spec['coeffs_static']
        ctx.hit('no static field')
    if ctx.chance(0.2):
        del spec['coeffs_tdep']
        ctx.hit('no time-dependent field')
    return S, spec, G.build_chaos(ctx, spec)


def gsm(ctx):
    """synth_coeffs_gsm against the Fourier sum of the configured spectrum applied to the GSM coefficients"""
    S, spec, m = setup(ctx)
    t = times(ctx, spec, spec['breaks'][0] - 300, spec['breaks'][-1] + 300)
    src = ctx.pick('external', 'internal')
    ctx.hit(src)
    kw = dict(source=src)
    if src == 'external' and ctx.chance(0.4):
        kw = {}
    n = 2
    if ctx.chance(0.3):
        kw['nmax'] = n = ctx.int(1, 2)
        if n == 1:
            ctx.hit('nmax 1')
    ctx.describe(time=t, gsm=spec['coeffs_gsm'], **kw)
    for k in range(2 if ctx.chance(0.25) else 1):
        if k:
            S['GSM'] = other_spectrum(ctx, 'GSM')
        got = ctx.call(m.synth_coeffs_gsm, t, **kw)
        want = np.empty(t.shape + (8,), dtype=R.LD)
        for i in np.ndindex(t.shape):
            want[i] = fourier(S['GSM'], t[i], src == 'internal') @ \
                spec['coeffs_gsm']
        q = S['GSM']['frequency'].shape[0]
        ctx.close(got, want[..., :n * (n + 2)], 1e-9 * q * (
            1 + np.abs(spec['coeffs_gsm']).max()), 'synth_coeffs_gsm')


def write_rc(ctx, tab, name):
    if ctx.chance(0.5):
        p = ctx.path(name + '.h5')
        G.write_rc_h5(p, tab)
        ctx.hit('RC h5')
    else:
        p = ctx.path(name + '.dat')
        G.write_rc_dat(p, tab)
        ctx.hit('RC dat')
    return p


def sm(ctx):
    """synth_coeffs_sm against RC*m_Dst + offset bins + higher degrees, rotated by the Fourier sum; RC by argument or file"""
    S, spec, m = setup(ctx)
    b = spec['breaks_delta']['q10']
    t = times(ctx, spec, b[0] - ctx.pick(0, 200), b[-1] + ctx.pick(0, 200))
    src = ctx.pick('external', 'internal')
    ctx.hit(src)
    kw = dict(source=src)
    if src == 'external' and ctx.chance(0.4):
        kw = {}
    n = 2
    if ctx.chance(0.3):
        kw['nmax'] = n = ctx.int(1, 2)
        if n == 1:
            ctx.hit('nmax 1')
    rounds = 1
    if ctx.chance(0.4):
        ctx.hit('RC argument')
        rc = ctx.rng.normal(size=t.shape) * 40
        if ctx.chance(0.3):
            rc = float(ctx.rng.normal() * 40)
        kw['rc'] = rc
        if np.ndim(rc) == 0:
            rc = np.full(t.shape, rc)
    elif ctx.chance(0.25):
        rounds = 2
    ctx.describe(time=t, sm=spec['coeffs_sm'], **kw)
    for k in range(rounds):
        if 'rc' not in kw:
            tab = G.rc_table(ctx, float(t.min()) - ctx.pick(0.0, 3.0),
                             float(t.max()) + ctx.pick(0.0, 3.0))
            if t.ndim and ctx.chance(0.4):
                ctx.hit('at RC epoch')
                t = t.copy()
                t.flat[0] = tab['time'][ctx.int(0, tab['time'].size - 1)]
            name = 'rc' if rounds == 2 and ctx.chance(0.5) else f'rc{k}'
            if k:
                ctx.hit('RC file changed between calls')
            cp.basicConfig['file.RC_index'] = write_rc(ctx, tab, name)
            col = 'RC_e' if src == 'external' else 'RC_i'
            rc = np.interp(t, tab['time'], tab[col])
        if k and ctx.chance(0.5):
            S['SM'] = other_spectrum(ctx, 'SM')
        got = ctx.call(m.synth_coeffs_sm, t, **kw)
        want = np.empty(t.shape + (8,), dtype=R.LD)
        for i in np.ndindex(t.shape):
            want[i] = expected_sm(spec, S['SM'], t[i], src, rc[i])
        amp = 1 + np.abs(spec['coeffs_sm']).max() * (1 + np.abs(rc).max())
        ctx.close(got, want[..., :n * (n + 2)],
                  1e-9 * S['SM']['frequency'].shape[0] * amp,
                  'synth_coeffs_sm')


CHILD = """
import sys, pickle, warnings
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
warnings.simplefilter('ignore')
import numpy as np
import chaosmagpy as cp
assert cp.__file__.startswith(sys.argv[1]), cp.__file__
with open(sys.argv[2], 'rb') as f:
    spec, t, pos = pickle.load(f)
m = cp.CHAOS(spec.pop('breaks'), spec.pop('order'), **spec)
out = {s: m.synth_coeffs_sm(t, source=s) for s in ('external', 'internal')}
out['default'] = m.synth_coeffs_sm(t)
out['total'] = np.stack(m(t, *pos, source_list=['sm']))
np.savez(sys.argv[3], **out)
"""


def builtin(ctx):
    """an installation with its RC-index file (missing from this tree) in place: the default configuration finds and uses it"""
    ctx.hit('RC file of the package')
    top = ctx.path('site')
    package = os.path.dirname(cp.__file__)
    shutil.copytree(package, os.path.join(top, 'chaosmagpy'),
                    ignore=shutil.ignore_patterns('__pycache__', '*.zip'))
    lib = os.path.join(package, 'lib')
    S = load(os.path.join(lib, 'frequency_spectrum_sm.npz'))
    spec = G.chaos_spec(ctx, own_bins=True)
    b = spec['breaks_delta']['q10']
    t = ctx.uni(b[0], b[-1], 5)
    tab = G.rc_table(ctx, float(t.min()), float(t.max()))
    G.write_rc_h5(os.path.join(top, 'chaosmagpy', 'lib', 'RC_index.h5'), tab)
    pos = (6371.2, ctx.uni(1, 179, 5), ctx.uni(-180, 180, 5))
    with open(ctx.path('in.pkl'), 'wb') as f:
        pickle.dump((spec, t, pos), f)
    ctx.describe(time=t, sm=spec['coeffs_sm'])
    p = subprocess.run([sys.executable, '-c', CHILD, top, ctx.path('in.pkl'),
                        ctx.path('out.npz')], capture_output=True, text=True,
                       timeout=200)
    ctx.calls['synth_coeffs_sm'] += 3
    ctx.check(p.returncode == 0, f'failed: {p.stderr[-400:]}')
    with np.load(ctx.path('out.npz')) as f:
        got = {k: f[k] for k in f.files}
    want = {}
    for src in ('external', 'internal'):
        rc = np.interp(t, tab['time'], tab['RC_e' if src == 'external'
                                           else 'RC_i'])
        want[src] = np.stack([expected_sm(spec, S, t[i], src, rc[i])
                              for i in range(5)])
        tol = 1e-8 * S['frequency'].shape[0] * (
            1 + np.abs(spec['coeffs_sm']).max() * (1 + np.abs(rc).max()))
        ctx.close(got[src], want[src], tol, f'synth_coeffs_sm {src}')
    ctx.close(got['default'], want['external'], tol, 'synth_coeffs_sm')
    field = 0
    for src in ('external', 'internal'):
        A = R.field_design(*pos, R.coeff_index(1, 2, 2), src, 6371.2)
        field = field + np.stack([(a * want[src]).sum(-1) for a in A])
    ctx.close(got['total'], field, 10 * tol, 'SM field')


def rejected(ctx):
    """times outside the RC file and dipoles other than that of the spectrum are rejected, inside ones accepted"""
    spec = G.chaos_spec(ctx)
    m = G.build_chaos(ctx, spec)
    b = spec['breaks_delta']['q10']
    t = ctx.uni(b[0], b[-1], 3)
    if ctx.chance(0.5):
        tab = G.rc_table(ctx, t.min(), t.max())
        cp.basicConfig['file.RC_index'] = write_rc(ctx, tab, 'rc')
        src = ctx.pick('external', 'internal')
        ctx.call(m.synth_coeffs_sm, t, source=src)
        bad = t.copy()
        k = ctx.int(0, 2)
        d = ctx.pick(1e-3, 1.0, 500.0)
        bad[k] = t.min() - d if ctx.chance(0.5) else t.max() + d
        ctx.hit('outside the RC file')
        ctx.describe(time=bad, rc_time=tab['time'])
        ctx.rejects(m.synth_coeffs_sm, bad, source=src)
        ctx.rejects(m.synth_values_sm, bad, 7000., 50., 10.)
        ctx.rejects(m, bad, 7000., 50., 10., source_list=['sm'])
        # given RC values make the file irrelevant
        ctx.call(m.synth_coeffs_sm, bad, source=src, rc=1.0)
    else:
        ctx.hit('other dipole rejected')
        d = np.array(cp.basicConfig['params.dipole'], dtype=float)
        k = ctx.int(0, 2)
        d[k] += ctx.pick(0.1, -5., 1000.)
        cp.basicConfig['params.dipole'] = d
        ctx.describe(dipole=d)
        src = ctx.pick('external', 'internal')
        ctx.rejects(m.synth_coeffs_gsm, t, source=src)
        ctx.rejects(m.synth_coeffs_sm, t, source=src, rc=0.)
        ctx.rejects(m.synth_values_gsm, t, 7000., 50., 10.)
        ctx.rejects(m, t, 7000., 50., 10., source_list=['gsm'])


def geometry(ctx):
    """the built-in spectra rotate like the exact frame (Sun vector and dipole from our own formulas)"""
    n = 2
    idx = R.coeff_index(1, n, n)
    t = ctx.uni(0, 2900, 3)
    th, ph = np.degrees(np.arccos(ctx.uni(-0.99, 0.99, 60))), ctx.uni(0, 360,
                                                                     60)
    A = R.surface_design(th, ph, idx).astype(float)
    spec = G.chaos_spec(ctx)
    m = G.build_chaos(ctx, spec)
    c = {'gsm': spec['coeffs_gsm'],
         'sm': np.r_[spec['coeffs_sm'][:3] * 7.0, spec['coeffs_sm'][3:]]}
    for ref in ('gsm', 'sm'):
        if ref == 'gsm':
            got = ctx.call(m.synth_coeffs_gsm, t, source='external')
        else:
            # no offsets: rc drives the degree-one part
            s2 = G.copy_spec(spec)
            for k in s2['coeffs_delta']:
                s2['coeffs_delta'][k][:] = 0
            m2 = G.build_chaos(ctx, s2)
            got = ctx.call(m2.synth_coeffs_sm, t, source='external', rc=7.0)
        for k, x in enumerate(t):
            s = R.sun_vector(x)
            mu = G.dipole_unit(np.array([-29442.0, -1501.0, 4797.1]))
            y = np.cross(mu.astype(float), s.astype(float))
            y /= np.linalg.norm(y)
            if ref == 'gsm':
                e1, e3 = s, np.cross(s.astype(float), y)
            else:
                e1, e3 = np.cross(y, mu.astype(float)), mu
            u = R.unit(th, ph).astype(float)
            x1, x2, x3 = u @ np.asarray(e1, float), u @ y, u @ np.asarray(
                e3, float)
            V = R.surface_design(np.degrees(np.arccos(np.clip(x3, -1, 1))),
                                 np.degrees(np.arctan2(x2, x1)), idx) @ c[ref]
            want = np.linalg.lstsq(A, V.astype(float), rcond=None)[0]
            ctx.close(got[k], want, 0.015 * np.linalg.norm(c[ref]),
                      f'{ref} coefficients versus the geometric rotation')
    ctx.describe(time=t)


FAMILIES = [Family('gsm', gsm, 2400, 24000), Family('sm', sm, 3600, 36000),
            Family('builtin', builtin, 8, 80),
            Family('rejected', rejected, 400, 3200),
            Family('geometry', geometry, 240, 2000)]
