"""C08: MAT files round-trip every part of a model."""
import os

import h5py
import hdf5storage
import numpy as np
import scipy.io

from ..core import cp, Family
from .. import refs as R, gens as G

REQUIRED = ['MATLAB classes', 'one piece', 'order 1', 'one satellite', 'equal bins',
            'different bins', 'constant Euler angles', 'no pre-rotation',
            'calibration', 'missing static', 'missing Euler', 'missing ext',
            'missing cal', 'missing params', 'single qs11 bin',
            'single q10 bin', 'v5', 'v7.3', 'more satellites than names',
            'fewer satellites than names', 'nested struct', 'empty array', 'text',
            'cell of one', 'n_sm 3',
            'second round trip', 'real model']
SATS = ['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b', 'swarm_c',
        'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']


def draw(ctx):
    """Constructor arguments of a model with random parts."""
    rng = ctx.rng
    spec = G.chaos_spec(ctx, static=True, external=True,
                        pieces=ctx.pick(1, 2, 5), order=ctx.int(1, 6))
    big = ctx.chance(0.04)
    if big:
        ctx.hit('large model')
        spec = G.chaos_spec(ctx, n_tdep=ctx.pick(3, 12, 20), n_static=ctx.pick(
            11, 25, 60), pieces=ctx.pick(30, 52, 110))
    if spec['breaks'].size == 2:
        ctx.hit('one piece')
    if spec['order'] == 1:
        ctx.hit('order 1')
    if ctx.chance(0.3):
        spec['coeffs_sm'] = rng.normal(size=15) * 5
        ctx.hit('n_sm 3')
    if spec['breaks_delta']['q11'].size == 2:
        ctx.hit('single qs11 bin')
    if spec['breaks_delta']['q10'].size == 2:
        ctx.hit('single q10 bin')
    if ctx.chance(0.75):
        ns = ctx.pick(9, 10, 13) if big else ctx.pick(1, 1, 2, 3, 5)
        names = [f'sat {k}' for k in range(ns)]
        if ctx.chance(0.4):
            bins = [ctx.int(1, 5)] * ns
        else:
            bins = [ctx.int(1, 80 if big else 6) for _ in range(ns)]
        eb, ec = {}, {}
        for k, nb in zip(names, bins):
            if ctx.chance(0.12):
                ctx.hit('constant Euler angles')
                eb[k] = np.array([ctx.uni(0, 3000)])
                nb = 1
            else:
                eb[k] = np.sort(rng.uniform(-500, 4000, nb + 1))
            ec[k] = rng.normal(size=(1, nb, 3)) * 30
        if ns == 1:
            ctx.hit('one satellite')
        elif len({v.shape for v in ec.values()}) == 1:
            ctx.hit('equal bins')
        else:
            ctx.hit('different bins')
        spec.update(breaks_euler=eb, coeffs_euler=ec)
        if ctx.chance(0.8):
            spec['meta'] = dict(params=dict(
                Euler_prerotation=rng.normal(size=(ns, 3)) * 90),
                satellites=tuple(names))
        else:
            ctx.hit('no pre-rotation')
    else:
        ctx.hit('missing Euler')
    if ctx.chance(0.5):
        n = ctx.int(1, 90 if big else 6)
        spec['breaks_cal'] = {'cryosat-2_1': np.sort(rng.uniform(0, 4e3,
                                                                 n + 1))}
        spec['coeffs_cal'] = {'cryosat-2_1': rng.normal(size=(1, n, 9))}
        ctx.hit('calibration')
    else:
        ctx.hit('missing cal')
    u = ctx.int(0, 9)
    if u == 0:
        del spec['coeffs_static']
        ctx.hit('missing static')
    elif u == 1:
        for k in ('coeffs_sm', 'coeffs_gsm', 'breaks_delta', 'coeffs_delta'):
            del spec[k]
        ctx.hit('missing ext')
    return spec


def same(ctx, got, want, what):
    g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    ctx.check(g.shape == w.shape, f'{what}: shape {g.shape}, expected '
              f'{w.shape}')
    ctx.equal(g, w, what)


def compare(ctx, m, spec, names=None):
    """loaded model against the constructor arguments."""
    same(ctx, m.model_tdep.breaks, spec['breaks'], 'tdep breaks')
    same(ctx, m.model_tdep.coeffs, spec['coeffs_tdep'], 'tdep coeffs')
    ctx.equal(m.model_tdep.order, spec['order'], 'tdep order')
    if 'coeffs_static' in spec:
        same(ctx, m.model_static.coeffs, spec['coeffs_static'], 'static')
    else:
        ctx.check(m.model_static is None, 'static part from nowhere')
    if 'coeffs_sm' in spec:
        same(ctx, m.coeffs_sm, spec['coeffs_sm'], 'coeffs_sm')
        same(ctx, m.coeffs_gsm, spec['coeffs_gsm'], 'coeffs_gsm')
        for k in ('q10', 'q11', 's11'):
            same(ctx, m.breaks_delta[k], spec['breaks_delta'][k],
                 'breaks_delta ' + k)
            same(ctx, m.coeffs_delta[k], spec['coeffs_delta'][k],
                 'coeffs_delta ' + k)
        ctx.equal([m.n_sm, m.n_gsm], [
            int(round(np.sqrt(spec['coeffs_sm'].size + 1))) - 1, 2],
            'n_sm, n_gsm')
    else:
        ctx.check(m.coeffs_sm is None and m.coeffs_gsm is None and
                  m.coeffs_delta is None, 'external part from nowhere')
    if 'breaks_euler' in spec:
        keys = list(spec['breaks_euler'])
        out = keys if names is None else names
        ctx.equal(list(m.model_euler), out, 'satellites')
        pre = spec.get('meta')
        pre = None if pre is None else pre['params']['Euler_prerotation']
        for i, (k, o) in enumerate(zip(keys, out)):
            b = spec['breaks_euler'][k]
            b = np.r_[b, b] if b.size == 1 else b
            same(ctx, m.model_euler[o].breaks, b, 'Euler breaks')
            same(ctx, m.model_euler[o].coeffs, spec['coeffs_euler'][k],
                 'Euler angles')
            p = m.model_euler[o].meta['Euler_prerotation']
            if pre is None:
                ctx.check(p is None, 'pre-rotation from nowhere')
            else:
                same(ctx, p, pre[i], 'Euler pre-rotation')
    else:
        ctx.check(m.model_euler is None, 'Euler angles from nowhere')
    if 'breaks_cal' in spec:
        ctx.equal(list(m.model_cal), ['cryosat-2_1'], 'cal satellites')
        c = m.model_cal['cryosat-2_1']
        same(ctx, c.breaks, spec['breaks_cal']['cryosat-2_1'], 'cal breaks')
        same(ctx, c.coeffs, spec['coeffs_cal']['cryosat-2_1'], 'cal coeffs')
    else:
        ctx.check(m.model_cal is None, 'calibration from nowhere')


def warned_parts(ctx, spec):
    """missing parts are named by warnings, present ones are not."""
    w = ' | '.join(ctx.user_warnings())
    for word, missing in (
            ('static', 'coeffs_static' not in spec),
            ('external', 'coeffs_sm' not in spec),
            ('Missing Euler', 'breaks_euler' not in spec),
            ('calibration', 'breaks_cal' not in spec)):
        ctx.check((word in w) == missing, f'warning about missing parts '
                  f'({word}): {w!r}')


def roundtrip(ctx):
    """CHAOS.save_matfile -> load_CHAOS_matfile/from_mat returns every part bit for bit, repeatedly"""
    spec = draw(ctx)
    m = G.build_chaos(ctx, spec)
    stem = ctx.pick('model', 'CHAOS-7.18', 'CHAOS-6-x7', 'format', 'matmat',
                    'CHAOS-7_t.m')
    path = ctx.path(stem + '.mat')
    ctx.call(m.save_matfile, path)
    matlab_types(ctx, path)
    ctx.describe(**{k: v for k, v in spec.items()})
    kw = {}
    names = None
    if 'breaks_euler' in spec:
        keys = list(spec['breaks_euler'])
        u = ctx.int(0, 3)
        if u == 0:
            names = (SATS + [f'satellite_{k}' for k in range(10, 30)])[
                :len(keys)]
        elif u == 1 and len(keys) > 1:
            ctx.hit('more satellites than names')
            kw['satellites'] = keys[:-1]
            names = keys[:-1] + [f'satellite_{len(keys)}']
        elif u == 2:
            ctx.hit('fewer satellites than names')
            kw['satellites'] = keys + ['extra', 'more']
        else:
            kw['satellites'] = ctx.pick(keys, tuple(keys))
    f = ctx.pick(cp.load_CHAOS_matfile, cp.CHAOS.from_mat)
    if ctx.chance(0.3):
        kw['name'] = 'own name'
    got = ctx.call(f, path, **kw)
    warned_parts(ctx, spec)
    ctx.check(got.name == kw.get('name', stem), f'name {got.name}')
    compare(ctx, got, spec, names)
    if ctx.chance(0.4):
        ctx.hit('second round trip')
        p2 = ctx.path('again.mat')
        ctx.call(got.save_matfile, p2)
        kw.pop('name', None)
        if names is not None:
            kw['satellites'] = names
        compare(ctx, ctx.call(cp.load_CHAOS_matfile, p2, **kw), spec, names)


def matlab_types(ctx, path):
    """Every dataset of a v7.3 mat-file must tell MATLAB its class."""
    ctx.hit('MATLAB classes')
    with h5py.File(path, 'r') as f:
        def visit(name, obj):
            if isinstance(obj, h5py.Dataset) and name != '#refs#/a':
                ctx.check('MATLAB_class' in obj.attrs,
                          f'{name} in the mat-file has no MATLAB_class')
        f.visititems(visit)


def matlab_file(ctx, spec, path, v5):
    """Our own writer of the documented CHAOS mat-file."""
    co = spec['coeffs_tdep']
    order, pieces, dim = co.shape
    coefs = np.empty((pieces * dim, order))
    for p in range(pieces):
        for d in range(dim):
            coefs[p * dim + d] = co[:, p, d]

    def col(x):
        return np.reshape(np.asarray(x, dtype=float), (-1, 1))

    def cells(xs):
        c = np.empty((len(xs), 1), dtype=object)
        for k, x in enumerate(xs):
            c[k, 0] = x
        return c
    var = dict(pp=dict(form='pp', order=float(order), pieces=float(pieces),
                       dim=float(dim), breaks=spec['breaks'].reshape((1, -1)),
                       coefs=coefs))
    if 'coeffs_static' in spec:
        var['g'] = col(spec['coeffs_static'])
    if 'coeffs_sm' in spec:
        sm = spec['coeffs_sm'].copy()
        sm[:3] = ctx.rng.normal(size=3)         # mean offsets, not used
        b, c = spec['breaks_delta'], spec['coeffs_delta']
        var['model_ext'] = dict(
            t_break_q10=col(b['q10']), q10=col(c['q10']),
            t_break_qs11=col(b['q11']),
            qs11=np.concatenate([col(c['q11']), col(c['s11'])], axis=1),
            m_sm=col(sm), m_gsm=col(spec['coeffs_gsm'][[0, 3]]),
            m_Dst=col(spec['coeffs_sm'][:3]))
    if 'breaks_euler' in spec:
        keys = list(spec['breaks_euler'])
        var['model_Euler'] = dict(
            t_break_Euler=cells([col(spec['breaks_euler'][k]) for k in keys]),
            **{a: cells([col(spec['coeffs_euler'][k][0, :, i]) for k in keys])
               for i, a in enumerate(('alpha', 'beta', 'gamma'))})
        if 'meta' in spec:
            var['params'] = dict(Euler_prerotation=spec['meta']['params'][
                'Euler_prerotation'])
    if 'breaks_cal' in spec:
        b, c = (spec[k]['cryosat-2_1'] for k in ('breaks_cal', 'coeffs_cal'))
        var['pp_CAL'] = dict(form='pp', order=1.0, pieces=float(c.shape[1]),
                             dim=9.0, breaks=b.reshape((1, -1)),
                             coefs=c.reshape((-1, 1)))
    if v5:
        scipy.io.savemat(path, var)
    else:
        hdf5storage.savemat(path, var, format='7.3', matlab_compatible=True)


def foreign(ctx):
    """load_CHAOS_matfile on files of our own MATLAB-style writer, v5 and v7.3"""
    spec = draw(ctx)
    if 'meta' not in spec:
        ctx.hit('missing params')
    v5 = ctx.chance(0.5)
    ctx.hit('v5' if v5 else 'v7.3')
    path = ctx.path('CHAOS-x.mat')
    matlab_file(ctx, spec, path, v5)
    kw = {}
    names = None
    if 'breaks_euler' in spec:
        if ctx.chance(0.5):
            names = (SATS + [f'satellite_{k}' for k in range(10, 30)])[
                :len(spec['breaks_euler'])]
        else:
            kw['satellites'] = list(spec['breaks_euler'])
    ctx.describe(v5=v5, **spec)
    got = ctx.call(cp.load_CHAOS_matfile, path, **kw)
    warned_parts(ctx, spec)
    compare(ctx, got, spec, names)


def struct_value(ctx, depth):
    rng = ctx.rng
    u = ctx.int(-3 if depth else -2, 7 if depth else 5)
    if u == -1:
        ctx.hit('empty array')
        return np.zeros(ctx.pick((0, 0), (0, 3), (2, 0)))
    if u == -2:
        ctx.hit('text')
        return 'model ' * ctx.int(1, 3) + 'x'
    if u == -3:
        ctx.hit('cell of one')
        c = np.empty((1, 1), dtype=object)
        c[0, 0] = struct_value(ctx, depth - 1)
        return c
    if u == 0:
        return np.array(rng.normal())
    if u == 1:
        return rng.normal(size=(ctx.int(2, 5), 1))
    if u == 2:
        return rng.normal(size=(1, ctx.int(2, 5)))
    if u == 3:
        return rng.normal(size=(ctx.int(2, 4), ctx.int(2, 4)))
    if u == 4:
        return rng.integers(-5, 5, size=(2, 3)).astype(np.int32)
    if u == 5:
        return rng.normal(size=(2, 3, 2))
    if u == 6:
        ctx.hit('nested struct')
        return {f'f{k}': struct_value(ctx, depth - 1)
                for k in range(ctx.int(1, 3))}
    c = np.empty((ctx.int(2, 4),), dtype=object)
    for k in range(c.size):
        c[k] = rng.normal(size=(k + 1, 1))
    return c


def match(ctx, got, want, what):
    if isinstance(want, dict):
        ctx.check(isinstance(got, dict), f'{what}: {type(got)} is not a dict')
        ctx.equal(sorted(got), sorted(want), what + ' fields')
        for k in want:
            match(ctx, got[k], want[k], f'{what}.{k}')
    elif isinstance(want, str):
        ctx.equal(str(np.squeeze(got)), want, what)
    elif want.dtype == object and want.size == 1:
        match(ctx, got, want.item(), what + '{}')
    elif want.dtype == object:
        ctx.check(np.shape(got) == want.shape, f'{what}: cell shape '
                  f'{np.shape(got)}')
        for k in range(want.size):
            ctx.equal(np.squeeze(np.asarray(got[k])), np.squeeze(want[k]),
                      f'{what}{{{k}}}')
    else:
        ctx.check(np.shape(got) == np.squeeze(want).shape,
                  f'{what}: shape {np.shape(got)} for {want.shape}')
        ctx.equal(np.asarray(got), np.squeeze(want), what)


def encodings(ctx):
    """load_matfile returns the squeezed variables, structs and cells for both encodings; variable_names selects"""
    var = {f'v{k}': struct_value(ctx, 2) for k in range(ctx.int(1, 5))}
    ctx.describe(variables=var)
    sel = None
    if ctx.chance(0.3):
        sel = [sorted(var)[ctx.int(0, len(var) - 1)]]
    for v5 in (True, False):
        path = ctx.path(f'x{v5}.mat')
        if v5:
            scipy.io.savemat(path, var)
        else:
            hdf5storage.savemat(path, var, format='7.3',
                                matlab_compatible=True)
        ctx.hit('v5' if v5 else 'v7.3')
        kw = {} if sel is None else dict(variable_names=sel)
        got = ctx.call(cp.data_utils.load_matfile, path, **kw)
        keys = [k for k in got if not k.startswith('__')]
        ctx.equal(sorted(keys), sorted(sel or var), 'variables')
        for k in keys:
            match(ctx, got[k], var[k], f'{"v5" if v5 else "v7.3"} {k}')


def ppform(ctx):
    """Base.save_matfile: raw HDF5 content is MATLAB's pp-form and evaluates (as ppval does) to the same spline"""
    order, pieces, dim = ctx.int(1, 6), ctx.int(1, 6), ctx.pick(1, 3, 8, 15)
    if ctx.chance(0.1):
        pieces = ctx.int(7, 30)
    brk = G.breaks(ctx, pieces)
    co = G.pp_coeffs(ctx, order, brk, dim)
    cls = ctx.pick(cp.chaos.Base, cp.chaos.BaseModel)
    m = ctx.call(cls, 'x', brk, order, co)
    path = ctx.path('pp.mat')
    name = ctx.pick(None, '/pp', '/other', '/a/b')
    kw = {} if name is None else dict(path=name)
    ctx.call(m.save_matfile, path, **kw)
    ctx.describe(order=order, pieces=pieces, dim=dim, path=name)
    d = ctx.call(m.to_ppdict)
    with h5py.File(path, 'r') as f:
        g = f[name or '/pp']
        raw = {k: np.array(g[k]) for k in g}
        ctx.check(g.attrs.get('MATLAB_class') in (b'struct', 'struct'),
                  'pp is not stored as a MATLAB struct')
    ctx.equal(sorted(raw), sorted(['form', 'order', 'pieces', 'dim', 'breaks',
                                   'coefs']), 'pp fields')
    for k, v in (('order', order), ('pieces', pieces), ('dim', dim)):
        ctx.check(raw[k].size == 1 and raw[k].ravel()[0] == v and
                  float(d[k]) == v, f'pp.{k} {raw[k]}, {d[k]}')
    ctx.equal(raw['breaks'].ravel(), brk, 'pp.breaks')
    # HDF5 holds the transpose of the MATLAB array
    coefs = raw['coefs'].T
    ctx.equal(coefs.shape, (pieces * dim, order), 'size of pp.coefs')
    ctx.equal(np.asarray(d['coefs']), coefs, 'to_ppdict coefs')
    t = G.times_in(ctx, brk, 5)
    for x in t:
        i = R.pp_piece(brk, x)
        val = np.zeros(dim)
        for k in range(order):
            val = val * (x - brk[i]) + coefs[i * dim:(i + 1) * dim, k]
        want, sc = R.pp_eval(brk, co, x)
        ctx.close(val, want, 1e-12 * sc + 1e-300, 'ppval of the file')
    if name in (None, '/pp', '/other'):
        back = ctx.call(cp.data_utils.load_matfile, path)
        b = back[(name or '/pp')[1:]]
        ctx.equal(np.ravel(b['breaks']), brk, 'loaded breaks')
        ctx.equal(np.reshape(b['coefs'], (-1, order)), coefs, 'loaded coefs')


def real(ctx):
    """the CHAOS-7 file of the documentation survives save and load; raw content against scipy/h5py"""
    path = os.path.join(os.path.dirname(os.path.dirname(cp.__file__)), 'docs',
                        'source', '.static', 'examples', 'CHAOS-7.mat')
    if not os.path.exists(path):
        ctx.check(True, '')
        ctx.hit('real model')
        return
    ctx.hit('real model')
    a = ctx.call(cp.load_CHAOS_matfile, path)
    p2 = ctx.path('again.mat')
    ctx.call(a.save_matfile, p2)
    b = ctx.call(cp.load_CHAOS_matfile, p2)
    for part in ('model_tdep', 'model_static'):
        x, y = getattr(a, part), getattr(b, part)
        same(ctx, y.coeffs, x.coeffs, part)
        same(ctx, y.breaks, x.breaks, part)
        ctx.equal([y.order, y.nmax, y.pieces], [x.order, x.nmax, x.pieces],
                  part)
    for k in ('q10', 'q11', 's11'):
        same(ctx, b.coeffs_delta[k], a.coeffs_delta[k], 'delta')
        same(ctx, b.breaks_delta[k], a.breaks_delta[k], 'delta')
    same(ctx, b.coeffs_sm, a.coeffs_sm, 'sm')
    same(ctx, b.coeffs_gsm, a.coeffs_gsm, 'gsm')
    ctx.equal(list(b.model_euler), list(a.model_euler), 'satellites')
    for k in a.model_euler:
        same(ctx, b.model_euler[k].coeffs, a.model_euler[k].coeffs, k)
        same(ctx, b.model_euler[k].breaks, a.model_euler[k].breaks, k)
        same(ctx, b.model_euler[k].meta['Euler_prerotation'],
             a.model_euler[k].meta['Euler_prerotation'], k)
    for k in a.model_cal or {}:
        same(ctx, b.model_cal[k].coeffs, a.model_cal[k].coeffs, k)
        same(ctx, b.model_cal[k].breaks, a.model_cal[k].breaks, k)
    with h5py.File(path, 'r') if h5py.is_hdf5(path) else _V5(path) as f:
        coefs = np.array(f['pp']['coefs'])
        brk = np.ravel(f['pp']['breaks'])
        same(ctx, a.model_tdep.breaks, brk, 'raw breaks')
        # element (order k, piece p, dim d) by explicit index
        o, P, D = a.model_tdep.coeffs.shape
        for _ in range(200):
            k, p, d = ctx.int(0, o - 1), ctx.int(0, P - 1), ctx.int(0, D - 1)
            ctx.check(a.model_tdep.coeffs[k, p, d] == coefs[k, p * D + d],
                      f'raw coefficient {(k, p, d)}')
        g = np.ravel(f['g'])
        same(ctx, a.model_static.coeffs.ravel(), g, 'raw static')


class _V5:
    def __init__(self, path):
        m = scipy.io.loadmat(path, simplify_cells=True)
        self.d = dict(pp=dict(coefs=m['pp']['coefs'].T,
                              breaks=m['pp']['breaks']), g=m['g'])

    def __enter__(self):
        return self.d

    def __exit__(self, *a):
        pass


FAMILIES = [Family('roundtrip', roundtrip, 900, 12000),
            Family('foreign', foreign, 600, 8000),
            Family('encodings', encodings, 600, 8000),
            Family('ppform', ppform, 900, 8000),
            Family('real', real, 6, 32)]
