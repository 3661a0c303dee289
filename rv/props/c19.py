"""C19: configuration is validated, scoped, persistent and resettable."""
import copy
import json
import os
import pathlib

import numpy as np

from ..core import cp, Family, REPO
from .. import refs as R, gens as G

cu = cp.coordinate_utils
REQUIRED = ['invalid rejected', 'unknown key', 'reset', 'fullreset',
            'default array modified in place', 'nested contexts',
            'exception in the body', 'generator closed', 'save and load',
            'load of an invalid file', 'empty file', 'path object', 'no file',
            'the default value', 'vector', 'float', 'integer', 'version', 'path', 'text',
            'r_surf in effect', 'dipole in effect', 'ellipsoid in effect',
            'figure width in effect', 'conductivity in effect',
            'RC file in effect', 'spectrum in effect', 'coastline in effect',
            'early return',
            'fresh process defaults', 'same array twice',
            'second configuration object']
# documented defaults
LIB = os.path.join(REPO, 'chaosmagpy', 'lib')
DEFAULTS = {
    'params.r_surf': 6371.2, 'params.r_cmb': 3485.0,
    'params.dipole': [-29442.0, -1501.0, 4797.1],
    'params.ellipsoid': [6378.137, 6356.752],
    'params.CHAOS_version': '7.18', 'params.cdf_to_mjd': 730485,
    'file.RC_index': 'RC_index.h5',
    'file.GSM_spectrum': 'frequency_spectrum_gsm.npz',
    'file.SM_spectrum': 'frequency_spectrum_sm.npz',
    'file.Earth_conductivity': 'Earth_conductivity.dat',
    'file.shp_coastline': 'ne_110m_coastline.zip',
    'plots.figure_width': 6.3}
FLOATS = ['params.r_surf', 'params.r_cmb', 'plots.figure_width']
VECTORS = {'params.dipole': 3, 'params.ellipsoid': 2}
FILES = [k for k in DEFAULTS if k.startswith('file.')]


def snap(cfg):
    return {k: copy.deepcopy(v) for k, v in dict.items(cfg)}


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(np.asarray(a), np.asarray(b))
    return type(a) is type(b) and a == b or (
        isinstance(a, (int, float)) and isinstance(b, (int, float))
        and a == b)


def unchanged(ctx, cfg, before, what, but=()):
    ctx.equal(set(dict.keys(cfg)), set(before), f'{what}: keys')
    for k, v in before.items():
        if k not in but:
            ctx.check(same(dict.__getitem__(cfg, k), v),
                      f'{what}: {k} is {dict.__getitem__(cfg, k)!r}, '
                      f'was {v!r}')


def is_default(ctx, cfg, key, what):
    v, d = cfg[key], DEFAULTS[key]
    if key.startswith('file.'):
        ctx.check(isinstance(v, str) and os.path.realpath(v)
                  == os.path.realpath(os.path.join(LIB, d)),
                  f'{what}: {key} = {v!r}')
    elif key in VECTORS:
        ctx.equal(np.asarray(v, float), np.asarray(d), f'{what}: {key}')
        ctx.check(isinstance(v, np.ndarray), f'{what}: {key} is an array')
    else:
        ctx.check(same(v, d), f'{what}: {key} = {v!r}')


def a_file(ctx):
    p = ctx.path(f'f{ctx.int(0, 5)} file.dat')
    with open(p, 'w') as f:
        f.write('1 2\n')
    return p


def valid(ctx, key=None):
    """Key, a value to assign and the value the configuration should hold."""
    key = key or ctx.pick(*DEFAULTS)
    if has_default(key) and ctx.chance(0.15):
        ctx.hit('the default value')
        v = copy.copy(DEFAULTS[key])
        if key in FILES:
            v = os.path.join(LIB, v)
        return key, v, None if key in VECTORS else v
    if key in FLOATS:
        ctx.hit('float')
        x = ctx.pick(float(ctx.uni(0.1, 9000)), ctx.int(1, 9000))
        v = ctx.pick(x, str(x), np.float64(x))
        return key, v, float(x)
    if key in VECTORS:
        ctx.hit('vector')
        x = np.round(ctx.uni(1, 7000, VECTORS[key]), ctx.int(0, 12))
        return key, ctx.pick(x, x.tolist(), tuple(x), x.astype(np.float32)
                             .astype(float)), None
    if key == 'params.cdf_to_mjd':
        ctx.hit('integer')
        x = ctx.int(0, 10**6)
        return key, ctx.pick(x, str(x), np.int64(x)), x
    if key == 'params.CHAOS_version':
        ctx.hit('version', 'text')
        x = f'{ctx.int(1, 9)}.{ctx.int(0, 20)}'
        return key, x, x
    ctx.hit('path')
    p = a_file(ctx)
    k = ctx.int(0, 3)
    if k == 0:
        ctx.hit('path object')
        return key, pathlib.Path(p), p
    if k == 1:
        ctx.hit('no file')
        return key, ctx.pick(None, 'None'), 'NONE'
    return key, p, p


def holds(ctx, cfg, key, v, want, what):
    got = cfg[key]
    if isinstance(want, str) and want == 'NONE':
        ctx.check(got is None, f'{what}: {key} = {got!r} instead of None')
    elif key in VECTORS:
        ctx.check(isinstance(got, np.ndarray) and got.shape
                  == (VECTORS[key],), f'{what}: {key} = {got!r}')
        ctx.equal(np.asarray(got, float), np.asarray(v, float),
                  f'{what}: {key}')
    elif key.startswith('file.'):
        ctx.equal(os.fspath(got), want, f'{what}: {key}')
    else:
        ctx.check(type(got) is type(want) and got == want,
                  f'{what}: {key} = {got!r}, expected {want!r}')


def invalid(ctx):
    """Key and a value that is not valid for it."""
    key = ctx.pick(*(k for k in DEFAULTS))
    if key in FLOATS or key == 'params.cdf_to_mjd':
        return key, ctx.pick('abc', None, [1.0, 2.0], '', {}, 'one',
                             *(['3.7', '7e5'] if key == 'params.cdf_to_mjd'
                               else []))
    if key in VECTORS:
        n = VECTORS[key]
        return key, ctx.pick(
            np.ones(n + 1), np.ones(n - 1), np.ones((1, n)), 3.0, [],
            ['a'] * n, None, np.ones((n, n)), 'abc', [1j] * n,
            [[1.0] * n])
    if key == 'params.CHAOS_version':
        return key, ctx.pick('seven', '7', '', 'x.y', 7, None)
    return key, ctx.pick(ctx.path('missing.dat'), '/nonexistent/x.h5', '',
                         3.5, ['a'], pathlib.Path('/nonexistent/y'))


def objects(ctx):
    """The shared configuration or a second object of the class."""
    if ctx.chance(0.25):
        ctx.hit('second configuration object')
        cfg = cp.config_utils.BasicConfig()
        cfg.fullreset()
        return cfg
    return cp.basicConfig


def assign(ctx):
    """a history of assignments: valid values are stored in the type of the key, anything else raises and changes nothing"""
    cfg = objects(ctx)
    other = cp.basicConfig if cfg is not cp.basicConfig else None
    ob = snap(other) if other is not None else None
    hist = []
    for _ in range(ctx.int(1, 8)):
        before = snap(cfg)
        if ctx.chance(0.5):
            key, v, want = valid(ctx)
            hist.append((key, str(v)[:40]))
            ctx.call(cfg.__setitem__, key, v)
            holds(ctx, cfg, key, v, want, 'assigned')
            unchanged(ctx, cfg, before, f'after setting {key}', but=[key])
            if isinstance(v, np.ndarray):
                ctx.hit('same array twice')
                keep = cfg[key].copy()
                v[:] = -1.0
                ctx.equal(cfg[key], keep, 'value after the caller changed '
                                          'the array it assigned')
        else:
            if ctx.chance(0.25):
                ctx.hit('unknown key')
                key, v = ctx.pick('foo', 'params.r', 'r_surf', '',
                                  'params.R_SURF', 'file', 3, None), 1.0
                ctx.rejects(cfg.__setitem__, key, v, exc=KeyError)
            else:
                ctx.hit('invalid rejected')
                key, v = invalid(ctx)
                hist.append((key, str(v)[:40]))
                ctx.rejects(cfg.__setitem__, key, v, what=f'{key} = {v!r}')
            unchanged(ctx, cfg, before, f'after rejecting {key}')
        if other is not None:
            unchanged(ctx, other, ob, 'the other configuration')
    ctx.describe(history=hist)


def has_default(key):
    return not key.startswith('file.') or os.path.exists(
        os.path.join(LIB, DEFAULTS[key]))


def resets(ctx):
    """reset and fullreset restore the documented defaults whatever was done to the values"""
    cfg = objects(ctx)
    for _ in range(ctx.int(0, 6)):
        key, v, _ = valid(ctx)
        ctx.call(cfg.__setitem__, key, v)
        for k in VECTORS:
            if ctx.chance(0.3):
                # misuse: modify the configured array in place
                cfg[k][ctx.int(0, VECTORS[k] - 1)] *= 2
                ctx.hit('default array modified in place')
    before = snap(cfg)
    key = ctx.pick(*(k for k in DEFAULTS if has_default(k)))
    ctx.hit('reset')
    ctx.describe(key=key)
    ctx.call(cfg.reset, key)
    is_default(ctx, cfg, key, 'after reset')
    unchanged(ctx, cfg, before, 'after reset', but=[key])
    if key in VECTORS:
        cfg[key][:] = 11.0
        ctx.call(cfg.reset, key)
        is_default(ctx, cfg, key, 'after reset, change in place and reset')
    ctx.rejects(cfg.reset, 'params.nothing', exc=KeyError)
    ctx.hit('fullreset')
    for rep in range(2):
        ctx.call(cfg.fullreset)
        ctx.equal(set(dict.keys(cfg)), set(DEFAULTS), 'keys after fullreset')
        for k in DEFAULTS:
            is_default(ctx, cfg, k, 'after fullreset')
        for k in VECTORS:
            cfg[k][:] = -7.0
        for k in VECTORS:
            if rep and ctx.chance(0.5):
                ctx.call(cfg.reset, k)
                is_default(ctx, cfg, k, 'after changing the array in place')


class Boom(Exception):
    pass


def contexts(ctx):
    """context applies a value inside the block only, also nested and on exceptions"""
    cfg = objects(ctx)
    for _ in range(ctx.int(0, 3)):
        k, v, _ = valid(ctx)
        ctx.call(cfg.__setitem__, k, v)
    if ctx.chance(0.3):
        # default path that does not exist any more
        dict.__setitem__(cfg, 'file.RC_index', '/nonexistent/RC.h5')
    log = []

    def level(depth):
        before = snap(cfg)
        key, v, want = valid(ctx)
        log.append(key)
        how = ctx.pick('normal', 'raise', 'bad value', 'unknown', 'return')
        if how in ('bad value', 'unknown'):
            k, bad = invalid(ctx) if how == 'bad value' else ('no.key', 1)
            try:
                with cfg.context(k, bad):
                    ctx.fail(f'context({k!r}, {bad!r}) entered')
            except Exception as err:
                if type(err).__name__ == 'Violation':
                    raise
            ctx.oracle += 1
            ctx.hit('invalid rejected')
            unchanged(ctx, cfg, before, f'after a refused context of {k}')

        def body():
            with cfg.context(key, v):
                holds(ctx, cfg, key, v, want, 'inside the context')
                unchanged(ctx, cfg, before, 'inside the context', but=[key])
                if depth > 0 and ctx.chance(0.7):
                    ctx.hit('nested contexts')
                    level(depth - 1)
                    holds(ctx, cfg, key, v, want, 'after the inner context')
                if ctx.chance(0.3):
                    # assign the same key inside
                    _, v2, w2 = valid(ctx, key)
                    ctx.call(cfg.__setitem__, key, v2)
                    holds(ctx, cfg, key, v2, w2, 'assigned in the context')
                if how == 'raise':
                    raise Boom
                if how == 'return':
                    ctx.hit('early return')
                    return
        try:
            body()
            ctx.check(how != 'raise', 'exception swallowed by context')
        except Boom:
            ctx.hit('exception in the body')
            ctx.check(how == 'raise', 'exception of the body')
        unchanged(ctx, cfg, before, 'after the context')

    ctx.calls['BasicConfig.context'] += 1
    before = snap(cfg)
    level(ctx.int(0, 3))
    ctx.describe(keys=log)
    unchanged(ctx, cfg, before, 'after all contexts')
    if ctx.chance(0.3):
        key, v, want = valid(ctx)

        def gen():
            with cfg.context(key, v):
                yield cfg[key]
        g = gen()
        next(g)
        holds(ctx, cfg, key, v, want, 'inside the generator')
        g.close()
        ctx.hit('generator closed')
        unchanged(ctx, cfg, before, 'after closing the generator')


def writable(x):
    try:
        json.dumps(x.tolist() if isinstance(x, np.ndarray) else x)
        return True
    except TypeError:
        return False


def persist(ctx):
    """save then load reproduces any configuration; invalid files are refused"""
    cfg = objects(ctx)
    for k in DEFAULTS:
        if ctx.chance(0.5):
            _, v, _ = valid(ctx, k)
            ctx.call(cfg.__setitem__, k, v)
    if not has_default('file.RC_index') and not os.path.exists(
            cfg['file.RC_index'] or '/'):
        ctx.call(cfg.__setitem__, 'file.RC_index', a_file(ctx))
    want = snap(cfg)
    p = ctx.path(ctx.pick('config.txt', 'config', 'c.json'))
    ctx.call(cfg.save, p)
    unchanged(ctx, cfg, want, 'after save')
    ctx.hit('save and load')
    target = ctx.pick(cfg, cp.config_utils.BasicConfig())
    dict.update(target, cfg)
    if ctx.chance(0.5):
        ctx.call(target.fullreset)
    else:
        for k in DEFAULTS:
            if ctx.chance(0.5):
                _, v, _ = valid(ctx, k)
                ctx.call(target.__setitem__, k, v)
    ctx.describe(config={k: str(v) for k, v in want.items()})
    ctx.call(target.load, p)
    for k, v in want.items():
        ctx.check(same(target[k], v),
                  f'{k} after save and load: {target[k]!r}, was {v!r}')
        ctx.check(isinstance(target[k], np.ndarray) == isinstance(
            v, np.ndarray), f'type of {k} after save and load')
    # a partial file changes its keys only
    key, v, w = valid(ctx)
    jv = np.asarray(v).tolist() if key in VECTORS else (
        v if isinstance(v, str) else w if w != 'NONE' else None)
    with open(p, 'w') as f:
        json.dump({key: jv}, f)
    before = snap(target)
    ctx.call(target.load, p)
    ctx.check(not ctx.user_warnings(), f'warnings {ctx.user_warnings()} for a '
              'file that is not empty')
    holds(ctx, target, key, v, w, 'partial file')
    unchanged(ctx, target, before, 'partial file', but=[key])
    before = snap(target)
    with open(p, 'w') as f:
        k = ctx.int(0, 3)
        if k == 3:
            bad, x = invalid(ctx)
            while not writable(x):
                bad, x = invalid(ctx)
            f.write(json.dumps({bad: x.tolist() if isinstance(
                x, np.ndarray) else x}))
        elif k == 0:
            json.dump({}, f)
        elif k == 1:
            json.dump({'params.unknown': 1.0}, f)
        else:
            f.write(json.dumps({'params.dipole': [1.0, 2.0]}))
    if k == 0:
        ctx.hit('empty file')
        ctx.call(target.load, p)
        ctx.check(len(ctx.user_warnings()) > 0, 'warning for an empty file')
    else:
        ctx.hit('load of an invalid file')
        ctx.rejects(target.load, p)
    unchanged(ctx, target, before, 'after the refused file')
    ctx.rejects(target.load, ctx.path('missing.json'))


def effect(ctx):
    """the library uses the values in effect at the time of the call, inside and after a context"""
    k = ctx.pick('r_surf', 'dipole', 'ellipsoid', 'width', 'sigma', 'RC',
                 'spectrum', 'coastline')
    cfg = cp.basicConfig
    if k == 'r_surf':
        ctx.hit('r_surf in effect')
        idx = R.coeff_index(1, 3, 3)
        c = ctx.rng.normal(size=15)
        r, th, ph = float(ctx.uni(3000, 9000)), float(ctx.uni(1, 179)), 30.0
        r0 = float(ctx.uni(3000, 9000))
        src = ctx.pick('internal', 'external')
        model = cp.chaos.BaseModel('model', np.array([0., 2.]), 1,
                                   c[None, None], source=src)

        def probe():
            B = ctx.call(cp.model_utils.synth_values, c, r, th, ph,
                         source=src)
            D = ctx.call(cp.model_utils.design_gauss, r, th, ph, 3,
                         source=src)
            P = ctx.call(cp.model_utils.power_spectrum, c, r, source=src)
            g = ctx.call(cp.model_utils.synth_values, c, r, [th], [ph],
                         source=src, grid=True)
            return [np.array(B), np.array(D) @ c, P,
                    np.array(g).ravel(),
                    np.array(ctx.call(model.synth_values, 1., r, th, ph)),
                    ctx.call(model.power_spectrum, 1.),
                    ctx.call(model.power_spectrum, 1., r)]

        def want(a):
            B = np.array(G.ref_field(c, r, th, ph, idx, src, a), float)
            n = np.array([1., 2., 3.])
            s = np.array([(c[i * i - 1:i * i + 2 * i] ** 2).sum()
                          for i in (1, 2, 3)])
            P = s * ((n + 1) * (a / r) ** (2 * n + 4) if src == 'internal'
                     else n * (r / a) ** (2 * n - 2))
            Pa = s * (n + 1 if src == 'internal' else n)
            return [B, B, P, B, B, Pa, P]
        key, old, new, rel = 'params.r_surf', cfg['params.r_surf'], r0, 1e-11
    elif k == 'dipole':
        ctx.hit('dipole in effect')
        d = G.dipole(ctx)
        t = float(ctx.uni(-9000, 9000))
        refs = 'gsm', 'sm', 'mag'
        bases = dict(
            gsm=lambda time=t, **k: cu.basevectors_gsm(time, **k),
            sm=lambda time=t, **k: cu.basevectors_sm(time, **k),
            mag=lambda time=t, **k: cu.basevectors_mag(**k))

        def probe():
            a = ctx.call(cu.basevectors_sm, t)[2]
            b = ctx.call(cu.transform_points, 40., 50., t, reference='mag')
            z = ctx.call(cu.dipole_to_vec)
            m = ctx.call(cu.basevectors_mag)[2]
            out = [a, z, m, np.cos(np.radians(b[0]))]
            # the default is the vector in effect, whatever the function
            for ref in refs:
                out += [np.array(x) for x in (
                    ctx.call(bases[ref]),
                    ctx.call(cu.transform_points, 40., 50., t,
                             reference=ref),
                    ctx.call(cu.transform_points, 40., 50., t,
                             reference=ref, inverse=True),
                    ctx.call(cu.transform_vectors, 40., 50., 3., -2., t,
                             reference=ref),
                    ctx.call(cu.transform_vectors, 40., 50., 3., -2., t,
                             reference=ref, inverse=True))]
            for ref in 'gsm', 'sm':
                out.append(ctx.call(cu.rotate_gauss_fft, 1, 1, N=1,
                                    reference=ref)[1].real)
            return out

        def want(v):
            u = G.dipole_unit(np.asarray(v)).astype(float)
            out = [u, u, u, R.unit(40., 50.).astype(float) @ u]
            p = R.unit(40., 50.).astype(float)
            _, s1, e1 = (np.asarray(x, float) for x in R.local_axes(40., 50.))
            for ref in refs:
                M = np.array(bases[ref](dipole=v))
                out.append(M)
                vec = []
                for A in M, M.T:
                    q = A @ p
                    pt = (np.degrees(np.arccos(q[2])),
                          np.degrees(np.arctan2(q[1], q[0])))
                    _, s2, e2 = (np.asarray(x, float) for x in
                                 R.local_axes(*pt))
                    w = A @ (3. * s1 - 2. * e1)
                    out.append(np.array(pt))
                    vec.append(np.array([*pt, w @ s2, w @ e2]))
                out += vec
            for ref in 'gsm', 'sm':
                M = cu.rotate_gauss(1, 1, *(
                    x[None] for x in bases[ref](time=0., dipole=v)))
                out.append(M)
            return out
        key, old, new, rel = 'params.dipole', cfg['params.dipole'], d, 1e-10
    elif k == 'ellipsoid':
        ctx.hit('ellipsoid in effect')
        e = np.array([7000., 6900.]) * ctx.uni(0.5, 1)

        def probe():
            r0, t0 = ctx.call(cu.gg_to_geo, 0., 90.)
            r1, t1 = ctx.call(cu.gg_to_geo, 0., 0.)
            h0, _ = ctx.call(cu.geo_to_gg, 9000., 90.)
            h1, _ = ctx.call(cu.geo_to_gg, 9000., 0.01)
            return [r0, r1, h0, h1]

        def want(v):
            return [v[0], v[1], 9000 - v[0], 9000 - v[1]]
        key, old, new, rel = 'params.ellipsoid', cfg['params.ellipsoid'], e, \
            1e-6
    elif k == 'width':
        ctx.hit('figure width in effect')
        import matplotlib.pyplot as plt
        w = float(ctx.uni(2, 9))

        def probe():
            out = []
            for fn, *a in ((cp.plot_utils.plot_power_spectrum,
                            np.array([1., 2.])),
                           (cp.plot_utils.plot_timeseries, np.arange(3.),
                            np.arange(3.)),
                           (cp.plot_utils.plot_maps, np.array([10., 50.]),
                            np.array([5., 9., 12.]), np.ones((2, 3)))):
                plt.close('all')
                ctx.call(fn, *a)
                out.append(plt.gcf().get_size_inches()[0])
            plt.close('all')
            return out

        def want(v):
            return [v, v, v]
        key, old, new, rel = 'plots.figure_width', 6.3, w, 1e-9
    elif k == 'coastline':
        ctx.hit('coastline in effect')
        import matplotlib.pyplot as plt
        import shapefile
        paths, lines = [], {}
        for i in range(2):
            p = ctx.path(f'coast{i}.shp')
            lines[p] = [ctx.uni(-80, 80, (ctx.int(2, 9), 2))
                        for _ in range(ctx.int(1, 4))]
            with shapefile.Writer(p, shapeType=3) as w:
                w.field('name', 'C')
                for x in lines[p]:
                    w.line([x.tolist()])
                    w.record('x')
            paths.append(p)
        key, old, new = 'file.shp_coastline', *paths
        rel = 1e-12
        cfg[key] = old

        def probe():
            plt.close('all')
            ctx.call(cp.plot_utils.plot_maps, np.array([10., 50.]),
                     np.array([5., 9., 12.]), np.ones((2, 3)))
            out = [np.concatenate([np.stack(ln.get_data(orig=True), -1)
                                   for ln in ax.get_lines()])
                   for ax in plt.gcf().axes[:1]]
            plt.close('all')
            return out

        def want(path):
            if path not in lines:                # the default
                with shapefile.Reader(path) as f:
                    lines[path] = [np.array(x.points) for x in f.shapes()]
            return [np.radians(np.concatenate(lines[path]))]
    elif k == 'sigma':
        ctx.hit('conductivity in effect')
        p = ctx.path('sigma.txt')
        s = 10 ** ctx.uni(-2, 1, 2)
        np.savetxt(p, np.c_[[0., 700.], s])
        f = np.array([1e-5, 1e-6])

        def probe():
            return [ctx.call(cu.q_response, f, 1)[0]]

        def want(path):
            m = np.loadtxt(path)
            return [cu.q_response_1D(1 / f, m[:, 1], 6371.2 - m[:, 0], 1,
                                     kind='quadratic')[3]]
        key, old, new, rel = ('file.Earth_conductivity',
                              cfg['file.Earth_conductivity'], p, 1e-9)
    else:
        spec = G.chaos_spec(ctx)
        m = G.build_chaos(ctx, spec)
        b = spec['breaks_delta']['q10']
        t = ctx.uni(b[0], b[-1], 2)
        if k == 'RC':
            ctx.hit('RC file in effect')
            paths = []
            for i in range(2):
                tab = G.rc_table(ctx, t.min(), t.max())
                p = ctx.path(f'rc{i}.' + ctx.pick('h5', 'dat'))
                (G.write_rc_h5 if p.endswith('h5') else G.write_rc_dat)(p,
                                                                        tab)
                paths.append((p, tab))
            cfg['file.RC_index'] = paths[0][0]
            tabs = dict(paths)

            def probe():
                return [ctx.call(m.synth_coeffs_sm, t)]

            def want(path):
                tab = tabs[path]
                return [m.synth_coeffs_sm(t, rc=np.interp(
                    t, tab['time'], tab['RC_e']))]
            key, old, new, rel = ('file.RC_index', paths[0][0], paths[1][0],
                                  1e-10)
        else:
            ctx.hit('spectrum in effect')
            p = ctx.path('s.npz')
            frame = ctx.pick('GSM', 'SM')
            key = f'file.{frame}_spectrum'
            part = ctx.pick('external', 'internal')
            rc = ctx.rng.normal(size=2)
            with np.load(cfg[key]) as f:
                S = {q: np.array(f[q]) for q in f.files}
            S['spectrum'] = S['spectrum'] * 3.0
            S['spectrum_ind'] = S['spectrum_ind'] * 3.0
            np.savez(p, **S)

            def probe():
                if frame == 'GSM':
                    return [ctx.call(m.synth_coeffs_gsm, t, source=part)]
                return [ctx.call(m.synth_coeffs_sm, t, source=part, rc=rc)]
            ref = probe()[0]
            first = cfg[key]

            def want(path):
                return [ref * (1.0 if path == first else 3.0)]
            old, new, rel = first, p, 1e-10
    ctx.describe(key=key, value=new)

    def judge(v, when):
        for g, w in zip(probe(), want(v)):
            w = np.asarray(w)
            ctx.close(g, w, rel * (1e-30 + np.abs(w).max()),
                      f'{key} {when}', shape=False)
    judge(old, 'before the context')
    with cfg.context(key, new):
        judge(new, 'inside the context')
    judge(old, 'after the context')
    cfg[key] = new
    judge(new, 'after the assignment')
    if has_default(key) and key != 'file.RC_index':
        cfg.reset(key)
        d = DEFAULTS[key]
        judge(os.path.join(os.path.realpath(LIB), d) if key.startswith(
            'file.') and k != 'spectrum' else cfg[key] if k == 'spectrum'
            else d, 'after reset')


def fresh(ctx):
    """a fresh interpreter starts with the documented defaults"""
    import subprocess
    import sys
    ctx.hit('fresh process defaults')
    code = ('import sys, json; sys.path.insert(0, sys.argv[1]); '
            'sys.dont_write_bytecode = True; import chaosmagpy as cp; '
            'print("@" + json.dumps({k: (v.tolist() if hasattr(v, "tolist") '
            'else v) for k, v in cp.basicConfig.items()}))')
    ctx.calls['import chaosmagpy'] += 1
    out = subprocess.run([sys.executable, '-W', 'ignore', '-c', code, REPO],
                         capture_output=True, text=True, timeout=200)
    line = [x for x in out.stdout.splitlines() if x.startswith('@')]
    ctx.check(len(line) == 1, f'import failed: {out.stderr[-400:]}')
    got = json.loads(line[0][1:])
    ctx.describe(config=got)
    ctx.equal(set(got), set(DEFAULTS), 'keys')
    for k, d in DEFAULTS.items():
        if k.startswith('file.'):
            ctx.equal(os.path.realpath(got[k]), os.path.realpath(
                os.path.join(LIB, d)), k)
        else:
            ctx.equal(got[k], d, k)


FAMILIES = [Family('assign', assign, 1500, 15000),
            Family('resets', resets, 800, 8000),
            Family('contexts', contexts, 1500, 15000),
            Family('persist', persist, 800, 8000),
            Family('effect', effect, 400, 4000),
            Family('fresh', fresh, 1, 2)]
