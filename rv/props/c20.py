"""C20: evaluation has no side effects and does not depend on the history."""
import datetime as dt
import gc
import hashlib
import os
import pickle
import subprocess
import sys
import threading
import time as clock
import warnings

import numpy as np

from ..core import cp, Family, digest, PKG, REPO, VERIF, Violation
from .. import refs as R, gens as G

mu, cu, du, pu = (cp.model_utils, cp.coordinate_utils, cp.data_utils,
                  cp.plot_utils)
REQUIRED = ['repeated call', 'after a failed call', 'read-only arguments',
            'result overwritten by the caller', 'config context in between',
            'RC file rewritten', 'model parts replaced', 'two threads',
            'eight threads', 'delays injected', 'fresh process', 'plots',
            'files written', 'files read', 'repeat in another order',
            'model arrays changed in place', 'thread switch inside a call',
            'NumPy errors set to raise', 'another model in between',
            'read-only model', 'call stopped in the middle',
            'same function in the other thread', 'open files counted',
            'resources of a failed call', 'one argument spoiled']
ASSUMPTIONS = [
    'Results of two evaluations of one call count as identical if they agree '
    'to 1e-12 of the largest magnitude in the array (bit equality is not '
    'required of the numerical libraries underneath).',
    'Concurrent schedules are sampled: random delays are injected at line '
    'boundaries inside chaosmagpy; preemption inside C code is not explored.']
NOTE = ('Snapshots of arguments, model, configuration, NumPy error state and '
        'files around every call; differential against a first evaluation, a '
        'fresh interpreter and concurrent threads.')


# -- results and snapshots ----------------------------------------------------
def public(m):
    """Attributes of a model that are not the library's own business."""
    return {k: v for k, v in vars(m).items() if not k.startswith('_')}


def flat(x):
    """List of arrays, strings and scalars the result consists of."""
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    if isinstance(x, dict):
        return [z for k in sorted(x, key=str) for z in [str(k)] + flat(x[k])]
    if hasattr(x, 'columns') and hasattr(x, 'values'):      # data frame
        return flat({c: np.asarray(x[c]) for c in x.columns}) + flat(
            np.asarray(x.index))
    if isinstance(x, (cp.chaos.Base, cp.CHAOS)):
        return flat({k: v for k, v in public(x).items() if k != 'timestamp'})
    if isinstance(x, np.ndarray) and x.dtype == object:
        return [z for y in x.ravel() for z in flat(y)]
    if isinstance(x, (np.ndarray, np.generic, int, float, complex, bool)):
        return [np.asarray(x)]
    return [x if isinstance(x, str) else repr(x)]


def frozen(x):
    """Independent copy of the flattened result."""
    return [np.array(v) if isinstance(v, np.ndarray) else v for v in flat(x)]


def same(ctx, got, want, what, tol=1e-12):
    got, want = flat(got), want
    ctx.equal(len(got), len(want), f'{what}: number of results')
    for k, (g, w) in enumerate(zip(got, want)):
        if isinstance(w, np.ndarray) and isinstance(g, np.ndarray):
            if w.dtype.kind in 'fc' and g.dtype == w.dtype:
                m = np.abs(w[np.isfinite(w)])
                ctx.close(g, w, tol * (m.max() if m.size else 0.0),
                          f'{what}: result {k}')
            else:
                ctx.equal(g.dtype, w.dtype, f'{what}: type of result {k}')
                ctx.equal(g, w, f'{what}: result {k}')
        else:
            ctx.equal(g, w, f'{what}: result {k}')


def arrays(x, seen=None):
    """All arrays reachable from an argument or a model."""
    if isinstance(x, np.ndarray):
        return [x] if x.dtype != object else [
            z for y in x.ravel() for z in arrays(y)]
    if isinstance(x, dict):
        return [z for y in x.values() for z in arrays(y)]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in arrays(y)]
    if isinstance(x, (cp.chaos.Base, cp.CHAOS)):
        return arrays(public(x))
    return []


def mark(*x):
    """Digest of content, types, shapes and flags."""
    def shape(y):
        if isinstance(y, np.ndarray):
            return [str(y.dtype), y.shape, y.strides, y.flags.writeable]
        if isinstance(y, (cp.chaos.Base, cp.CHAOS)):
            return [type(y).__name__, shape(public(y))]
        if isinstance(y, dict):
            return [[str(k), shape(v)] for k, v in y.items()]
        if isinstance(y, (list, tuple)):
            return [type(y).__name__] + [shape(v) for v in y]
        return type(y).__name__
    return digest([shape(y) for y in x], [frozen(y) for y in x])


def model_attr(m):
    """Attributes of a model that evaluation must leave alone (caches in
    private attributes other than _period are the library's business)."""
    return {k: (model_attr(v) if isinstance(v, cp.chaos.Base) else
                {q: model_attr(w) for q, w in v.items()}
                if isinstance(v, dict) and any(isinstance(
                    w, cp.chaos.Base) for w in v.values()) else v)
            for k, v in vars(m).items()
            if not k.startswith('_') or k == '_period'}


def tree(path):
    out = []
    for d, _, names in sorted(os.walk(path)):
        for n in sorted(names):
            p = os.path.join(d, n)
            if '__pycache__' in p:
                continue
            s = os.stat(p)
            h = hashlib.md5(open(p, 'rb').read()).hexdigest() \
                if s.st_size < 200000 else ''
            out.append((os.path.relpath(p, path), s.st_size, s.st_mtime_ns,
                        h))
    return out


class World:
    """Everything that evaluations must not change."""

    def __init__(self, model, scratch):
        self.model, self.scratch = model, scratch

    def state(self):
        return dict(model=mark(model_attr(self.model)),
                    config=mark(dict(cp.basicConfig)),
                    error=repr(np.geterr()), cwd=os.getcwd(),
                    lib=tree(os.path.join(PKG, 'lib')),
                    files=[f for f in tree(self.scratch)
                           if not f[0].startswith('out')])


class Op:
    def __init__(self, name, fn, *args, plot=False, **kwargs):
        self.name, self.fn = name, fn
        self.args, self.kwargs, self.plot = args, kwargs, plot

    def run(self):
        out = self.fn(*self.args, **self.kwargs)
        return out


# -- workload -----------------------------------------------------------------
class Setup:
    """Deterministic function of the generator: models, files and calls."""

    def __init__(self, ctx, readonly=None):
        self.ctx = ctx
        self.spec = G.chaos_spec(ctx, n_tdep=ctx.int(1, 4), n_static=5,
                                 euler={'swarm_a': 3, 'champ': 2}, cal=2)
        self.model = G.build_chaos(ctx, self.spec)
        b = self.spec['breaks']
        self.span = (b[0], b[-1])
        self.tab = G.rc_table(ctx, b[0] - 5, b[-1] + 5)
        self.rc = ctx.path('rc.' + ctx.pick('dat', 'h5'))
        self.write_rc(self.tab)
        cp.basicConfig['file.RC_index'] = self.rc
        self.readonly = ctx.chance(0.4) if readonly is None else readonly
        self.n_out = 0
        self.dir_out = ctx.path('out')
        os.makedirs(self.dir_out, exist_ok=True)
        self.shc = ctx.path('model.shc')
        self.mat = ctx.path('model.mat')
        self.model.save_shcfile(self.shc)
        self.model.save_matfile(self.mat)
        self.n = ctx.int(1, 5)
        self.ops = self.make()
        if self.readonly:
            for op in self.ops:
                for a in arrays(op.args) + arrays(op.kwargs):
                    if op.name not in ('synth_from_pp', 'colloc_matrix',
                                       'pp_from_bspline', 'design_matrix'):
                        a.flags.writeable = False

    def write_rc(self, tab):
        (G.write_rc_h5 if self.rc.endswith('h5') else G.write_rc_dat)(
            self.rc, tab)

    def out(self, ext):
        self.n_out += 1
        return os.path.join(self.dir_out, f'f{self.n_out}.{ext}')

    def make(self):
        ctx, m = self.ctx, self.model
        rng = ctx.rng
        n = self.n
        b = self.spec['breaks']
        t = G.times_in(ctx, b, n)
        tw = G.times_in(ctx, b, n, outside=0.4)
        r = G.radii(ctx, n, 6371.2)
        th = G.thetas(ctx, n, poles=ctx.chance(0.2))
        ph = G.phis(ctx, n)
        thi = np.clip(th, 1.0, 179.0)
        g = rng.normal(size=15)
        g2 = rng.normal(size=(n, 15))
        rc = rng.normal(size=n) * 20
        B = rng.normal(size=(2, n))
        knots = np.asarray(mu.augment_breaks(np.linspace(0, 5, 5), 4))
        kc = rng.normal(size=(knots.size - 4, 3))
        x = np.sort(rng.uniform(0, 5, 6))
        rot = G.random_rotation(ctx)
        while np.abs(rot).max() > 0.999:       # no pole on a special point
            rot = G.random_rotation(ctx)
        base = [np.ascontiguousarray(v) for v in rot]
        dip = G.dipole(ctx)
        freq = np.array([1.0, 0.5, 0.25])
        spec3 = (rng.normal(size=(3, 3, 3)) + 1j * rng.normal(size=(3, 3, 3)))
        dates = np.array([dt.datetime(2001, 5, 6, 7), dt.datetime(1999, 1, 1)])
        per = np.array([1e5, 3e6, 1e7])
        sig, rad = np.array([0.01, 1.0, 3.0]), np.array([6371.2, 5971., 5600.])
        src = ['tdep', 'gsm'] if ctx.chance(0.5) else ['static', 'sm']
        order = self.spec['order']

        def save(fn, ext, load):
            p = self.out(ext)
            fn(p)
            return load(p)
        ops = [
            Op('synth_coeffs_tdep', m.synth_coeffs_tdep, t),
            Op('synth_coeffs_tdep deriv', m.synth_coeffs_tdep, t, deriv=1,
               nmax=1),
            Op('synth_coeffs_tdep outside', m.synth_coeffs_tdep, tw,
               extrapolate=ctx.pick('off', 'constant', 'spline', 'cubic')),
            Op('synth_coeffs_tdep too large', m.synth_coeffs_tdep, t,
               nmax=50),
            Op('synth_values_tdep', m.synth_values_tdep, t, r, th, ph),
            Op('synth_values_tdep grid', m.synth_values_tdep, t[0], 6371.2,
               th, ph, grid=True, nmax=1),
            Op('synth_coeffs_static', m.synth_coeffs_static, nmax=2),
            Op('synth_values_static', m.synth_values_static, r, th, ph,
               nmax=4),
            Op('synth_coeffs_gsm', m.synth_coeffs_gsm, t),
            Op('synth_coeffs_gsm internal', m.synth_coeffs_gsm, t,
               source='internal', nmax=1),
            Op('synth_values_gsm', m.synth_values_gsm, t, r, th, ph),
            Op('synth_coeffs_sm', m.synth_coeffs_sm, t, rc=rc),
            Op('synth_coeffs_sm file', m.synth_coeffs_sm, t),
            Op('synth_coeffs_sm file internal', m.synth_coeffs_sm, t,
               source='internal'),
            Op('synth_values_sm', m.synth_values_sm, t, r, th, ph, rc_e=rc,
               rc_i=rc),
            Op('call', m, t, r, th, ph),
            Op('call sources', m, t, r, th, ph, source_list=src, rc_e=rc,
               rc_i=rc),
            Op('synth_euler_angles', m.synth_euler_angles,
               m.model_euler['champ'].breaks[:2] + 0.0, 'champ'),
            Op('power_spectrum model', m.model_tdep.power_spectrum, t, 3485.),
            Op('to_ppdict', m.model_tdep.to_ppdict),
            Op('str', str, m),
            Op('synth_values', mu.synth_values, g2, r, th, ph),
            Op('synth_values external', mu.synth_values, g, r, th, ph,
               source='external', nmax=2),
            Op('design_gauss', mu.design_gauss, r, th, ph, 3),
            Op('design_matrix', mu.design_matrix, knots, 4, 2,
               np.linspace(0, 5, n), r, thi, ph, n_static=3),
            Op('colloc_matrix', mu.colloc_matrix, x, knots, 4, deriv=1),
            Op('augment_breaks', mu.augment_breaks, b, 3),
            Op('augment_breaks list', mu.augment_breaks, list(b), 3),
            Op('pp_from_bspline', mu.pp_from_bspline, kc, knots, 4),
            Op('synth_from_pp', mu.synth_from_pp, b.astype(float), order,
               self.spec['coeffs_tdep'].copy(), t, r, th, ph, deriv=0),
            Op('legendre_poly', mu.legendre_poly, 5, th),
            Op('power_spectrum', mu.power_spectrum, g2, 6371.2),
            Op('power_spectrum axis', mu.power_spectrum, g2.T.copy(), 5000.,
               axis=0, source='external'),
            Op('degree_correlation', mu.degree_correlation, g, g2[0].copy()),
            Op('sensitivity', mu.sensitivity, g, g2[0].copy()),
            Op('sun_position', cu.sun_position, t),
            Op('zenith_angle', cu.zenith_angle, t, th, ph),
            Op('basevectors_gsm', cu.basevectors_gsm, t, dipole=dip),
            Op('basevectors_sm', cu.basevectors_sm, t),
            Op('basevectors_mag', cu.basevectors_mag, dipole=dip),
            Op('basevectors_use', cu.basevectors_use, thi, ph),
            Op('basevectors_gg', cu.basevectors_gg, th, thi),
            Op('dipole_to_vec', cu.dipole_to_vec),
            Op('dipole_to_vec list', cu.dipole_to_vec, [10., 290.]),
            Op('igrf_dipole', cu.igrf_dipole),
            Op('transform_points', cu.transform_points, th, ph, t,
               reference=ctx.pick('gsm', 'sm', 'mag'), dipole=dip,
               inverse=ctx.chance(0.5)),
            Op('transform_vectors', cu.transform_vectors, thi, ph, B[0], B[1],
               t, reference='sm', inverse=ctx.chance(0.5)),
            Op('geo_to_base', cu.geo_to_base, th, ph, *base),
            Op('matrix_geo_to_base', cu.matrix_geo_to_base, thi, ph, *base),
            Op('gg_to_geo', cu.gg_to_geo, r - 6371., thi, B[0], B[1]),
            Op('geo_to_gg', cu.geo_to_gg, r + 100., thi, B[0], B[1]),
            Op('spherical_to_cartesian', cu.spherical_to_cartesian, r, th,
               ph),
            Op('cartesian_to_spherical', cu.cartesian_to_spherical, r, th,
               ph),
            Op('center_azimuth', cu.center_azimuth, ph),
            Op('local_time', cu.local_time, t, ph),
            Op('synth_rotate_gauss', cu.synth_rotate_gauss, t, freq, spec3),
            Op('rotate_gauss', cu.rotate_gauss, 2, 2, *base),
            Op('rotate_gauss_fft', cu.rotate_gauss_fft, 1, 1, N=8, filter=3,
               qfunc=lambda f, k: 0.5 * np.ones(f.size)),
            Op('sh_analysis', cu.sh_analysis, lambda a, b: np.cos(
                np.radians(a)) + np.sin(np.radians(b)), 3),
            Op('q_response_1D', cu.q_response_1D, per, sig, rad, 1),
            Op('q_response', cu.q_response, freq * 1e-6, 2),
            Op('mjd2000', du.mjd2000, np.array([2001, 1999]), 2,
               np.array([3, 4]), 5),
            Op('mjd2000 dates', du.mjd2000, dates),
            Op('timestamp', du.timestamp, t),
            Op('dyear_to_mjd', du.dyear_to_mjd, 2000 + t / 400.),
            Op('mjd_to_dyear', du.mjd_to_dyear, t, leap_year=False),
            Op('is_leap_year', du.is_leap_year, np.array([2000, 1900])),
            Op('gauss_units', du.gauss_units, 2),
            Op('load_shcfile', du.load_shcfile, self.shc, leap_year=False),
            Op('load_matfile', lambda p: du.load_matfile(p)['pp'], self.mat),
            Op('load_RC_datfile', du.load_RC_datfile,
               self.rc, parse_dates=ctx.chance(0.5)) if self.rc.endswith(
                   'dat') else Op('gauss_units', du.gauss_units),
            Op('load_CHAOS_matfile', cp.load_CHAOS_matfile, self.mat,
               satellites=['one', 'two']),
            Op('load_CHAOS_shcfile', cp.load_CHAOS_shcfile, self.shc),
            Op('save_matfile', lambda: save(m.save_matfile, 'mat', lambda p:
               cp.load_CHAOS_matfile(p, name='x', satellites=('a', 'b')))),
            Op('save_shcfile', lambda: save(m.save_shcfile, 'shc', lambda p:
               du.load_shcfile(p)[1])),
            Op('save static', lambda: save(lambda p: m.save_shcfile(
                p, model='static'), 'shc', lambda p: du.load_shcfile(p)[1])),
            Op('rotate_gauss_fft save', lambda: save(
                lambda p: cu.rotate_gauss_fft(1, 1, N=6, save_to=p,
                                              reference='sm'),
                'npz', lambda p: dict(np.load(p)))),
        ]
        t1, r1, th1, ph1 = float(t[0]), float(r[0]), float(th[0]), float(ph[0])
        sat = list(m.model_cal)[0]
        cal = m.model_cal[sat]
        inner = cp.chaos.BaseModel
        dat = ctx.path('index.dat')
        G.write_rc_dat(dat, self.tab)
        ops += [
            Op('synth_coeffs_static all', m.synth_coeffs_static),
            Op('synth_coeffs_static deriv', m.synth_coeffs_static, deriv=1),
            Op('static model', m.model_static.synth_coeffs, float(b[0])),
            Op('static model times', m.model_static.synth_coeffs, t),
            Op('synth_values_static all', m.synth_values_static, r, th, ph),
            Op('synth_values_static one', m.synth_values_static, r1, th1,
               ph1),
            Op('static to_ppdict', m.model_static.to_ppdict),
            Op('static spectrum', m.model_static.power_spectrum, b[0]),
            Op('synth_coeffs_tdep one', m.synth_coeffs_tdep, t1),
            Op('synth_coeffs_tdep break', m.synth_coeffs_tdep, b[:-1]),
            Op('synth_values_tdep one', m.synth_values_tdep, t1, r1, th1, ph1,
               deriv=2),
            Op('synth_coeffs_gsm one', m.synth_coeffs_gsm, np.float64(t1)),
            Op('synth_coeffs_sm one', m.synth_coeffs_sm, np.float64(t1),
               rc=3.),
            Op('synth_coeffs_sm missing rc', m.synth_coeffs_sm, t,
               rc=np.where(np.arange(n) == 0, np.nan, rc)),
            Op('synth_values_gsm internal', m.synth_values_gsm, t, r, th, ph,
               source='internal'),
            Op('synth_values_gsm grid', m.synth_values_gsm, np.float64(t1),
               r1, th, ph, source='external', grid=True),
            Op('synth_values_sm external', m.synth_values_sm, t, r, th, ph,
               source='external', nmax=1),
            Op('synth_values_sm internal', m.synth_values_sm, t, r, th, ph,
               source='internal', rc_i=rc),
            Op('call internal', m, t, r, th, ph, source_list='internal',
               nmax_static=3),
            Op('call external', m, t, r, th, ph, source_list='external'),
            Op('synth_euler_angles one', m.synth_euler_angles,
               float(m.model_euler['swarm_a'].breaks[0]), 'swarm_a'),
            Op('synth_euler_angles dim', m.synth_euler_angles,
               m.model_euler['champ'].breaks[:1] + 0.0, 'champ', dim=2,
               deriv=1),
            Op('calibration', cal.synth_coeffs, float(cal.breaks[0])),
            Op('calibration to_ppdict', cal.to_ppdict),
            Op('from_bspline', inner.from_bspline, 'x', knots, kc, 4),
            Op('from_shc', inner.from_shc, self.shc, leap_year=False),
            Op('to_shc', lambda: save(m.model_tdep.to_shc, 'shc', lambda p:
               du.load_shcfile(p)[1])),
            Op('from_mat', cp.CHAOS.from_mat, self.mat),
            Op('synth_values layout', mu.synth_values, g[:6], r, th, ph,
               nmin=2, nmax=3, mmax=1),
            Op('synth_values one', mu.synth_values, g, r1, th1, ph1),
            Op('synth_values grid', mu.synth_values, g, r1, th, ph,
               grid=True),
            Op('design_gauss layout', mu.design_gauss, r, th, ph, 4, nmin=2,
               mmax=2, source='external'),
            Op('power_spectrum toroidal', mu.power_spectrum, g2,
               source='toroidal', nmax=2),
            Op('sensitivity itself', mu.sensitivity, g, g),
            Op('degree_correlation itself', mu.degree_correlation, g, g),
            Op('q_response_1D constant', cu.q_response_1D, per, sig, rad, 2,
               kind='constant'),
            Op('transform_points scalars', cu.transform_points, th1, ph1, t1,
               reference='gsm'),
            Op('sun_position one', cu.sun_position, t1),
            Op('center_azimuth one', cu.center_azimuth, ph1),
            Op('gg_to_geo points', cu.gg_to_geo, r - 6371., thi),
            Op('geo_to_gg points', cu.geo_to_gg, r + 100., thi),
            Op('mjd2000 one', du.mjd2000, 2001, 2, 3),
            Op('mjd2000 days', du.mjd2000, np.array(
                ['2001-02-03', '1987-06-05'], dtype='datetime64[D]')),
            Op('timestamp one', du.timestamp, t1),
            Op('mjd_to_dyear leap', du.mjd_to_dyear, t),
            Op('load_matfile part', lambda p: du.load_matfile(
                p, variable_names=['g'])['g'], self.mat),
            Op('save_RC_h5file', lambda: save(
                lambda p: du.save_RC_h5file(p, read_from=dat), 'h5',
                lambda p: open(p, 'rb').read(4))),
            Op('config save', lambda: save(
                cp.basicConfig.save, 'json', lambda p: open(p).read())),
            Op('load_CHAOS_matfile names', cp.load_CHAOS_matfile, self.mat,
               satellites=['one']),
        ]
        self.t, self.r, self.th, self.ph, self.rcv = t, r, th, ph, rc
        self.plots = [
            Op('plot_power_spectrum', pu.plot_power_spectrum,
               np.array([3., 0., 2.]), plot=True),
            Op('plot_timeseries', pu.plot_timeseries, np.sort(t),
               rng.normal(size=(n, 2)), titles=['a'], plot=True),
            Op('plot_maps', pu.plot_maps, np.linspace(5, 175, 4),
               np.linspace(-180, 180, 5), rng.normal(size=(4, 5)),
               cmap='nio', plot=True),
            Op('plot_timeseries_tdep', m.plot_timeseries_tdep, 6371., 40.,
               30., plot=True),
            Op('model plot_power_spectrum', m.model_tdep.plot_power_spectrum,
               t[0], plot=True)]
        self.bad = [
            Op('bad', mu.synth_values, g, r, th + 181., ph),
            Op('bad', mu.synth_values, g, r, th, ph, source='toroidal'),
            Op('bad', mu.synth_values, g, r, th, ph, nmin=3, nmax=2),
            Op('bad', mu.synth_values, g2, np.ones(n + 2), th, ph),
            Op('bad', mu.design_gauss, r, th - 200., ph, 3),
            Op('bad', m.synth_coeffs_tdep, tw - 1e5, extrapolate='no'),
            Op('bad', m.synth_euler_angles, t, 'nobody'),
            Op('bad', m.synth_coeffs_sm, t + 1e5),
            Op('bad', m.synth_coeffs_gsm, t, source='all'),
            Op('bad', m, t, r, th + 190., ph),
            Op('bad', m.save_matfile, ctx.path('no/where.mat')),
            Op('bad', m.save_shcfile, ctx.path('no/where.shc')),
            Op('bad', du.load_shcfile, ctx.path('missing.shc')),
            Op('bad', cp.load_CHAOS_matfile, ctx.path('missing.mat')),
            Op('bad', cu.sun_position, t + 1e6),
            Op('bad', cu.transform_points, th, ph, t, reference='abc'),
            Op('bad', cu.q_response_1D, np.ones((2, 2)), sig, rad, 1),
            Op('bad', du.is_leap_year, t),
            Op('bad', mu.degree_correlation, g, g[:-1].copy()),
            Op('bad', mu.design_matrix, knots, 4, 3, x, x, x + 1, x,
               n_static=1),
            Op('bad', cp.basicConfig.__setitem__, 'params.dipole', [1., 2.]),
            Op('bad', cp.basicConfig.__setitem__, 'params.nothing', 1.),
            Op('bad', cp.basicConfig.load, ctx.path('missing.json')),
        ]
        return ops


def close_all():
    import matplotlib.pyplot as plt
    plt.close('all')


def process():
    """Settings of the interpreter which a caller may rely on."""
    return dict(random=digest(np.random.get_state()[1:]),
                printing=repr(np.get_printoptions()))


def one(ctx, world, op, expect_error=False, check=True):
    """Run a call between two snapshots and return its frozen result."""
    before = world.state() if check else None
    own = process()
    am = mark(op.args, op.kwargs)
    if op.plot:
        import matplotlib as mpl
        rc0 = dict(mpl.rcParams)
    err = None
    try:
        out = ctx.call(op.fn, *op.args, **op.kwargs)
    except Exception as e:
        err = e
        if not expect_error:
            raise
    if op.plot:
        ctx.hit('plots')
        ctx.check(dict(mpl.rcParams) == rc0, f'{op.name} changed rcParams')
        close_all()
        out = None
    ctx.check(mark(op.args, op.kwargs) == am,
              f'{op.name} modified its arguments', key='arguments')
    ctx.check(ctx.filters_kept, f'{op.name} changed the warning filters')
    now = process()
    for k in own:
        ctx.check(now[k] == own[k], f'{op.name} changed the {k} of the '
                  f'process: {own[k][:150]} -> {now[k][:150]}',
                  key=f'process/{k}')
    if check:
        after = world.state()
        for k in before:
            ctx.check(before[k] == after[k], f'{op.name} changed the {k}: '
                      f'{str(before[k])[:150]} -> {str(after[k])[:150]}',
                      key=f'state/{k}')
    if err is not None:
        return None
    res = frozen(out)
    if not op.plot and ctx.chance(0.6):
        # the caller may do with the result what it wants
        held = arrays(op.args) + arrays(op.kwargs)
        mine = [a for a in arrays(out) if a.flags.writeable and not any(
            np.shares_memory(a, h) for h in held)] \
            if op.name not in ('load_CHAOS_matfile', 'load_CHAOS_shcfile',
                               'save_matfile') else []
        for a in mine:
            a[...] = -9.0 if a.dtype.kind in 'fc' else a.flat[0]
            ctx.hit('result overwritten by the caller')
    return res


def broken(ctx, op):
    """The same call with one argument spoiled, or None."""
    if op.plot or 'save' in op.name or 'config' in op.name or any(
            k in op.kwargs for k in ('save_to', 'filepath', 'path')):
        return None
    args, kw = list(op.args), dict(op.kwargs)
    where = [(args, i) for i in range(len(args))] + [
        (kw, k) for k in kw if k != 'read_from']
    if not where:
        return None
    d, k = where[ctx.int(0, len(where) - 1)]
    v = d[k]
    if isinstance(v, np.ndarray) and v.dtype.kind in 'iuf':
        bad = [np.ones(v.shape + (7,)) * 11.3, 'abc', np.full(v.shape, 'x'),
               np.full(v.shape, None)]
        if v.size and v.dtype.kind == 'f':
            w = v.copy()
            w[(-1,) * v.ndim] = ctx.pick(1e7, -1e7, np.nan)
            bad += [w, w]
        if v.ndim:
            bad.append(np.concatenate([v, v[:1], v[:1]]))
        d[k] = bad[ctx.int(0, len(bad) - 1)]
    elif isinstance(v, (bool, str, int, float, tuple, list, np.generic)):
        d[k] = ctx.pick('nonsense', -1, (1., 'a'), b'x')
    else:
        return None
    ctx.hit('one argument spoiled')
    return Op(op.name + ' with a spoiled argument', op.fn, *args, **kw)


def history(ctx):
    """random histories of calls, failed calls, config contexts and plots; every repetition of a call gives its first result and changes nothing"""
    s = Setup(ctx)
    if s.readonly:
        ctx.hit('read-only arguments')
    if ctx.chance(0.3):
        ctx.hit('read-only model')
        for part in (s.model.model_static, s.model.model_tdep):
            for a in arrays(part):
                a.flags.writeable = False
        for a in arrays([s.model.coeffs_sm, s.model.coeffs_gsm]):
            a.flags.writeable = False
    world = World(s.model, ctx.scratch)
    if ctx.chance(0.3):
        np.seterr(**ctx.pick(dict(over='raise', invalid='ignore',
                                  divide='ignore'),
                             dict(all='warn'), dict(under='warn')))
        ctx.hit('NumPy errors set to raise')
    ops = [s.ops[int(i)] for i in ctx.rng.choice(len(s.ops), 14, False)]
    first, seen = {}, []
    failed = False
    trail = []
    for step in range(45):
        u = ctx.rng.random()
        if u < 0.15:
            op = s.bad[ctx.int(0, len(s.bad) - 1)]
            if ctx.chance(0.5):
                op = broken(ctx, ctx.pick(*ops)) or op
            one(ctx, world, op, expect_error=True,
                check=ctx.chance(0.5))
            failed = True
            trail.append('bad')
            continue
        if u < 0.18:
            one(ctx, world, ctx.pick(*s.plots), check=ctx.chance(0.3))
            trail.append('plot')
            continue
        if u < 0.24:
            ctx.hit('config context in between')
            key, v = ctx.pick(('params.r_surf', 7000.), ('params.ellipsoid',
                              [7000., 6000.]), ('params.dipole',
                                                [-3e4, 1e3, 1e3]))
            op = ctx.pick(*ops)
            with cp.basicConfig.context(key, v):
                try:
                    one(ctx, world, op, expect_error=True, check=False)
                except AssertionError:
                    pass
            trail.append(key)
            continue
        if u < 0.28:
            ctx.hit('another model in between')
            sp = G.chaos_spec(ctx, n_tdep=s.model.model_tdep.nmax,
                              n_static=5)
            m2 = G.build_chaos(ctx, sp)
            ctx.call(m2, s.t * 0 + sp['breaks'][0], s.r, s.th, s.ph,
                     rc_e=s.rcv, rc_i=s.rcv)
            continue
        op = ops[ctx.int(0, len(ops) - 1)]
        if op.name.startswith('save') or op.name.endswith('save'):
            ctx.hit('files written')
        if op.name.startswith('load') or 'file' in op.name:
            ctx.hit('files read')
        res = one(ctx, world, op, check=ctx.chance(0.5))
        trail.append(op.name)
        k = id(op)
        if k in first:
            ctx.hit('repeated call')
            if failed:
                ctx.hit('after a failed call')
            if seen and seen[-1] != k:
                ctx.hit('repeat in another order')
            same(ctx, res, first[k], f'{op.name} repeated after {trail[-6:]}')
        else:
            first[k] = res
        seen.append(k)
    ctx.describe(trail=trail[:12], readonly=s.readonly)


def every(ctx):
    """every call of the pool, with read-only arguments, leaves arguments, model, configuration, error state and files alone; a second pass in another order gives the same"""
    s = Setup(ctx, readonly=ctx.chance(0.5))
    world = World(s.model, ctx.scratch)
    first = {}
    for op in s.ops + s.plots:
        first[id(op)] = one(ctx, world, op)
    for op in s.bad:
        one(ctx, world, op, expect_error=True)
    pool = s.ops
    for i in ctx.rng.permutation(len(pool)):
        for _ in range(2):
            op = broken(ctx, pool[i])
            if op is not None:
                one(ctx, world, op, expect_error=True)
        res = one(ctx, world, pool[i], check=False)
        same(ctx, res, first[id(pool[i])], f'{pool[i].name} second pass')
    ctx.describe(ops=len(s.ops), readonly=s.readonly)


def changes(ctx):
    """after the user changes the model, the RC file or the configuration, results are those of a new model (nothing stale is returned)"""
    s = Setup(ctx, readonly=False)
    m = s.model

    def evaluate(model):
        out = [model.synth_coeffs_tdep(s.t), model.synth_coeffs_static(),
               model.synth_coeffs_gsm(s.t), model.synth_coeffs_sm(s.t),
               model.synth_coeffs_sm(s.t, source='internal'),
               model.synth_coeffs_sm(s.t, rc=s.rcv)]
        out += list(model(s.t, s.r, s.th, s.ph, rc_e=s.rcv, rc_i=s.rcv))
        out += list(model.synth_values_sm(s.t, s.r, s.th, s.ph))
        out += [model.model_tdep.power_spectrum(s.t),
                model.synth_coeffs_gsm(s.t, source='internal'),
                model.synth_coeffs_tdep(s.t, deriv=1, nmax=1),
                model.synth_coeffs_tdep(s.t + 1e4, extrapolate='spline'),
                model.synth_coeffs_static(nmax=2),
                model.model_tdep.to_ppdict()]
        for sat in model.model_euler:
            out.append(model.synth_euler_angles(
                model.model_euler[sat].breaks[:-1], sat))
        for deriv in (0, 1):
            out += list(model.synth_values_tdep(
                s.t[0], 6371.2, s.th, s.ph, grid=True, deriv=deriv))
        out += list(model.synth_values_static(s.r, s.th, s.ph, nmax=3))
        out += list(model.synth_values_gsm(s.t, s.r, s.th, s.ph,
                                           source='internal'))
        return out
    ctx.calls['evaluate'] += 2
    evaluate(m)
    spec = G.copy_spec(s.spec)
    for _ in range(3):
        k = ctx.pick('rc', 'replace', 'inplace', 'r_surf', 'element',
                     'element', 'part')
        if k == 'rc':
            ctx.hit('RC file rewritten')
            tab = dict(s.tab)
            f = ctx.pick(2.0, -1.0, 0.0)
            for c in ('RC', 'RC_e', 'RC_i'):
                tab[c] = np.round(tab[c] * f, 2)
            st = os.stat(s.rc)
            s.write_rc(tab)
            if ctx.chance(0.5):
                # same time stamp as before
                os.utime(s.rc, ns=(st.st_atime_ns, st.st_mtime_ns))
            for src in 'external', 'internal':
                want = m.synth_coeffs_sm(s.t, source=src, rc=np.interp(
                    s.t, tab['time'], tab['RC_' + src[0]]))
                got = ctx.call(m.synth_coeffs_sm, s.t, source=src)
                ctx.close(got, want, 1e-9 * (1 + np.abs(want).max()),
                          'coefficients after the RC file was rewritten')
        elif k == 'replace':
            ctx.hit('model parts replaced')
            c = spec['coeffs_tdep'] * ctx.uni(0.1, 2.0)
            m.model_tdep.coeffs = c.copy()
            spec['coeffs_tdep'] = c
            c = spec['coeffs_gsm'] * 0.5
            m.coeffs_gsm = c.copy()
            spec['coeffs_gsm'] = c
        elif k == 'inplace':
            ctx.hit('model arrays changed in place')
            f = ctx.uni(0.1, 2.0)
            m.model_tdep.coeffs *= f
            spec['coeffs_tdep'] = spec['coeffs_tdep'] * f
            m.model_static.coeffs *= f
            spec['coeffs_static'] = spec['coeffs_static'] * f
            m.coeffs_delta['q10'] *= f
            spec['coeffs_delta']['q10'] = spec['coeffs_delta']['q10'] * f
            m.coeffs_sm *= f
            spec['coeffs_sm'] = spec['coeffs_sm'] * f
        elif k in ('element', 'part'):
            # one number of one array, or one array exchanged
            ctx.hit(f'one {k} of the model changed')
            sat = ctx.pick(*m.model_euler)
            q = ctx.pick('q10', 'q11', 's11')
            own, key, sub = ctx.pick(
                (m.model_tdep, 'coeffs_tdep', None),
                (m.model_static, 'coeffs_static', None),
                (m, 'coeffs_gsm', None), (m, 'coeffs_sm', None),
                (m.coeffs_delta, 'coeffs_delta', q),
                (m.model_euler[sat], 'coeffs_euler', sat))
            ref = spec[key] if sub is None else spec[key][sub]
            if own is m.coeffs_delta:
                arr = own[q]
            else:
                arr = getattr(own, key if own is m else 'coeffs')
            new = np.array(arr)
            if k == 'element':
                j = tuple(ctx.int(0, d - 1) for d in new.shape)
                new[j] += ctx.pick(1.0, -40.0)
                arr[j] = new[j]
            else:
                new = new + ctx.pick(1.0, -0.5) * (1 + np.abs(new))
                if own is m.coeffs_delta:
                    own[q] = new.copy()
                else:
                    setattr(own, key if own is m else 'coeffs', new.copy())
            if sub is None:
                spec[key] = new.reshape(np.shape(ref))
            else:
                spec[key][sub] = new.reshape(np.shape(ref))
        else:
            cp.basicConfig['params.r_surf'] = float(ctx.uni(3000, 7000))
        fresh = G.build_chaos(ctx, spec)
        ctx.calls['evaluate'] += 2
        same(ctx, evaluate(m), frozen(evaluate(fresh)),
             f'model evaluated before and after a change ({k})', tol=1e-11)
    ctx.describe(breaks=s.spec['breaks'])


def handles():
    """Files this process holds open, and its threads."""
    gc.collect()
    names = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            names.append(os.readlink('/proc/self/fd/' + fd))
        except OSError:
            pass
    return sorted(n for n in names if n.startswith('/')), \
        threading.active_count()


def resources(ctx):
    """calls and failed calls, however often repeated, leave no files open and no threads behind"""
    s = Setup(ctx)
    n = 6
    for op in [s.ops[int(i)] for i in ctx.rng.choice(len(s.ops), 12, False)] \
            + [s.bad[ctx.int(0, len(s.bad) - 1)] for _ in range(4)] \
            + [ctx.pick(*s.plots)]:
        for k in range(n + 1):
            if k == 1:
                before = handles()
            try:
                ctx.call(op.fn, *op.args, **op.kwargs)
            except Exception:
                ctx.hit('resources of a failed call')
            if op.plot:
                close_all()
        after = handles()
        ctx.hit('open files counted')
        more = [f for f in set(after[0])
                if after[0].count(f) - before[0].count(f) >= n]
        ctx.check(not more, f'{op.name} left files open: {more}',
                  key='open files')
        ctx.check(after[1] - before[1] < n, f'{op.name} left threads behind',
                  key='threads left')
    ctx.describe(ops=len(s.ops))


# -- threads ------------------------------------------------------------------
class Delays:
    """Random delays at line boundaries of chaosmagpy code; records switches
    between threads that are inside the library."""
    tool = 3

    def __init__(self, rng, rate):
        self.rng, self.rate = rng, rate
        self.last, self.switches, self.events = None, 0, 0
        self.hash = hashlib.blake2b(digest_size=8)

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.tool, 'rv-delays')
        draws = self.rng.random(4096)
        sleeps = self.rng.random(4096) * 2e-4

        def on_line(code, line):
            if not code.co_filename.startswith(PKG):
                return mon.DISABLE
            i = threading.get_ident()
            self.events += 1
            if self.last != i:
                self.switches += self.last is not None
                self.last = i
                self.hash.update(f'{code.co_name}{line}'.encode())
            k = self.events & 4095
            if draws[k] < self.rate:
                clock.sleep(sleeps[k])
        mon.register_callback(self.tool, mon.events.LINE, on_line)
        mon.set_events(self.tool, mon.events.LINE)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.tool, 0)
        mon.register_callback(self.tool, mon.events.LINE, None)
        mon.free_tool_id(self.tool)


def threads(ctx):
    """several threads evaluate one model concurrently under injected delays; each gets the sequential results"""
    s = Setup(ctx)
    world = World(s.model, ctx.scratch)
    ctx.call(s.model.synth_coeffs_tdep, s.t)
    # functions that only differ in what they write are left out
    pool = [op for op in s.ops if not ('save' in op.name or op.name in (
        'load_matfile', 'load_CHAOS_matfile'))]
    few = [pool[int(i)] for i in ctx.rng.choice(len(pool), 3, False)]
    if ctx.chance(0.5):
        few += [op for op in pool if op.name in (
            'call', 'synth_coeffs_sm file', 'synth_values_gsm')][:2]
    if ctx.chance(0.5):
        few += [op for op in pool if op.name in (
            'synth_values', 'design_gauss', 'legendre_poly',
            'synth_values_tdep', 'synth_values_static')]
    if ctx.chance(0.7):
        # the same functions with other arguments
        twin = dict(zip((id(op) for op in s.ops), s.make()))
        few += [twin[id(op)] for op in few]
        ctx.hit('same function, other arguments')
    want = {id(op): frozen(op.run()) for op in few}
    before = world.state()
    marks = {id(op): mark(op.args, op.kwargs) for op in few}
    nt = ctx.pick(2, 3, 8)
    ctx.hit({2: 'two threads', 3: 'three threads', 8: 'eight threads'}[nt])
    plans = [[few[int(i)] for i in ctx.rng.integers(0, len(few), 8)]
             for _ in range(nt)]
    got, errors = [[] for _ in range(nt)], []
    gate = threading.Barrier(nt)

    def worker(k):
        try:
            gate.wait(60)
            for op in plans[k]:
                got[k].append((op, frozen(op.run())))
        except BaseException as e:
            errors.append((k, e))
    old = sys.getswitchinterval()
    rate = ctx.pick(0.0, 0.01, 0.05)
    try:
        sys.setswitchinterval(ctx.pick(1e-6, 1e-5, 1e-4))
        with Delays(ctx.rng, rate) as d:
            ts = [threading.Thread(target=worker, args=(k,), daemon=True)
                  for k in range(nt)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
    finally:
        sys.setswitchinterval(old)
    if rate:
        ctx.hit('delays injected')
    if d.switches:
        ctx.hits['thread switch inside a call'] += d.switches
    ctx.hits['monitored line events'] += d.events
    for k in range(nt):
        for op in plans[k]:
            ctx.calls[op.name] += 1
    ctx.describe(threads=nt, ops=[[o.name for o in p] for p in plans[:2]],
                 switches=d.switches, schedule=d.hash.hexdigest())
    for k, e in errors:
        ctx.fail(f'thread {k} of {nt} raised {e!r}', key='threads/exception')
    for k in range(nt):
        ctx.equal(len(got[k]), len(plans[k]), 'number of results')
        for op, res in got[k]:
            same(ctx, res, want[id(op)], f'{op.name} in thread {k} of {nt}')
    for op in few:
        ctx.check(mark(op.args, op.kwargs) == marks[id(op)],
                  f'{op.name} in threads modified its arguments')
    after = world.state()
    for k in before:
        ctx.check(before[k] == after[k], f'threads changed the {k}')


class Preempt:
    """Stops one thread at its k-th line of library code, lets another run
    there and goes on: one chosen point of the two-thread schedules."""
    tool = 3

    def __init__(self, ident, at, handover):
        self.ident, self.at, self.handover = ident, at, handover
        self.count, self.where = 0, None

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.tool, 'rv-preempt')

        def on_line(code, line):
            if not code.co_filename.startswith(PKG):
                return mon.DISABLE
            if threading.get_ident() != self.ident():
                return
            self.count += 1
            if self.count == self.at:
                self.where = f'{code.co_name}:{line}'
                self.handover()
        mon.register_callback(self.tool, mon.events.LINE, on_line)
        mon.set_events(self.tool, mon.events.LINE)
        return self

    __exit__ = Delays.__exit__


def interleave(first, second, at):
    """Run `first` up to its at-th line, all of `second`, rest of `first`."""
    out, err, ident = {}, {}, {}
    go, done, end = (threading.Event() for _ in range(3))

    def handover():
        go.set()
        done.wait(3.0)      # goes on if the other one waits for a lock

    def run(key, op):
        ident[key] = threading.get_ident()
        try:
            out[key] = frozen(op.run())
        except BaseException as e:
            err[key] = e

    def one_():
        run(0, first)
        go.set()

    def two():
        go.wait(60)
        run(1, second)
        done.set()
    with Preempt(lambda: ident.get(0), at, handover) as p:
        ts = [threading.Thread(target=f, daemon=True) for f in (two, one_)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
    return out, err, p.count, p.where


def preempt(ctx):
    """one call is stopped at a chosen line while another thread makes a call of the same kind with other arguments; both get their own results"""
    s = Setup(ctx, readonly=False)
    other = s.make()
    for a, b in zip(s.ops, other):
        ctx.equal(a.name, b.name, 'pool')
    skip = ('save', 'load_matfile', 'load_CHAOS_matfile', 'str')
    pool = [i for i, op in enumerate(s.ops)
            if not any(op.name.startswith(k) or op.name.endswith('save')
                       for k in skip)]
    weight = np.array([3.0 if s.ops[i].name.startswith('synth') or
                       s.ops[i].name.startswith('call') else 1.0
                       for i in pool])
    trail = []
    for _ in range(8):
        i = pool[int(ctx.rng.choice(len(pool), p=weight / weight.sum()))]
        j = i if ctx.chance(0.6) else pool[ctx.int(0, len(pool) - 1)]
        a, b = s.ops[i], other[j]
        want = frozen(a.run()), frozen(b.run())
        _, err, total, _ = interleave(a, b, 0)
        ctx.check(not err, f'{a.name} in a thread: {err!r}')
        if not total:
            continue
        ks = range(1, total + 1)
        if total > 6:
            ks = sorted(set(int(k) for k in ctx.rng.integers(
                1, total + 1, 6)))
        for k in ks:
            out, err, _, where = interleave(a, b, k)
            ctx.calls[a.name] += 1
            ctx.calls[b.name] += 1
            what = f'{a.name} stopped at {where} for {b.name}'
            ctx.check(not err, f'{what}: {err!r}', key='preempt/exception')
            ctx.check(len(out) == 2, f'{what}: no result', key='preempt/hang')
            same(ctx, out[0], want[0], what)
            same(ctx, out[1], want[1], what + ' (second)')
            ctx.hit('call stopped in the middle')
            if i == j:
                ctx.hit('same function in the other thread')
            trail.append(f'{a.name}@{where}')
    ctx.describe(trail=trail[:20])


# -- fresh interpreter ----------------------------------------------------------
def run_fresh(seed, index, tier, scratch, target):
    """Evaluate every call once, in pool order, in this (new) process."""
    from ..core import Ctx
    ctx = Ctx('C20', 'fresh', index, seed, tier, scratch)
    ctx._scratch = scratch
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = Setup(ctx, readonly=False)
        out = []
        for op in s.ops:
            np.random.seed(0)
            out.append((op.name, frozen(op.run())))
    with open(target, 'wb') as f:
        pickle.dump(out, f)


def fresh(ctx):
    """after a long history the results equal those of a new interpreter"""
    import shutil
    p = ctx.path('fresh.pickle')
    sub = ctx.path('sub')
    os.makedirs(sub)
    code = (f'import sys; sys.path.insert(0, {VERIF!r}); '
            'from rv.props import c20; '
            f'c20.run_fresh({ctx.seed}, {ctx.index}, {ctx.tier!r}, {sub!r}, '
            f'{p!r})')
    env = dict(os.environ, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE='1')
    res = subprocess.run([sys.executable, '-W', 'ignore', '-c', code],
                         env=env, capture_output=True, text=True, timeout=200)
    ctx.check(os.path.exists(p), 'fresh process failed: '
              f'{res.stderr[-600:]}')
    want = pickle.load(open(p, 'rb'))
    shutil.rmtree(sub)
    ctx.hit('fresh process')
    s = Setup(ctx, readonly=False)
    world = World(s.model, ctx.scratch)
    ctx.equal([n for n, _ in want], [o.name for o in s.ops], 'calls')
    for _ in range(30):
        k = ctx.int(0, len(s.ops) + len(s.bad) - 1)
        if k < len(s.ops):
            one(ctx, world, s.ops[k], check=False)
        else:
            one(ctx, world, s.bad[k - len(s.ops)], expect_error=True,
                check=False)
    for i in ctx.rng.permutation(len(s.ops)):
        got = one(ctx, world, s.ops[i], check=False)
        w = want[i][1]
        if 'load' in s.ops[i].name or 'save' in s.ops[i].name:
            # names and paths differ between the two processes
            got = [g for g in got if isinstance(g, np.ndarray)]
            w = [g for g in w if isinstance(g, np.ndarray)]
        if s.ops[i].name == 'str':
            continue
        same(ctx, got, w, f'{s.ops[i].name} compared to a fresh process')
    ctx.describe(breaks=s.spec['breaks'])


FAMILIES = [Family('history', history, 250, 4000),
            Family('every', every, 32, 400),
            Family('changes', changes, 150, 2000),
            Family('resources', resources, 40, 400),
            Family('threads', threads, 250, 4000),
            Family('preempt', preempt, 200, 4000),
            Family('fresh', fresh, 16, 120)]
