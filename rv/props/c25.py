"""C25: plots show the values the model evaluates to."""
import numpy as np
import matplotlib.pyplot as plt
import shapefile
from matplotlib.collections import QuadMesh

from ..core import cp, Family
from .. import refs as R, gens as G

du, mu, pu = cp.data_utils, cp.model_utils, cp.plot_utils
REQUIRED = ['several columns', 'several curves', 'titles', 'layout',
            'layout rejected', 'figsize', 'configured width', 'line options',
            'explicit None', 'scalar limits', 'one limit', 'limiter',
            'default limits', 'projection', 'colormap', 'zeros in spectrum',
            'input unchanged', 'model timeseries', 'model maps',
            'model spectrum', 'derivative', 'truncated', 'over-large nmax',
            'static maps', 'static maps options', 'tdep maps',
            'tdep timeseries', 'historical model', 'external maps', 'gsm', 'sm', 'all',
            'external source', 'internal source', 'upper case', 'radius',
            'external model', 'time outside', 'extrapolation off',
            'configured surface', 'coastline', 'single time array',
            'one panel', 'integer argument', 'global grid',
            'grid of integers', 'no figure left by rejected requests']
CASE_TIMEOUT = 600


class Figures:
    """Observes the figures a call creates."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        plt.close('all')
        return self

    def __exit__(self, *exc):
        plt.close('all')

    def draw(self, fn, *args, warn=False, **kw):
        ctx = self.ctx
        plt.close('all')
        out = ctx.call(fn, *args, **kw)
        name = fn.__name__
        ctx.check(out is None, f'{name}: returned {type(out)}')
        if not warn:
            msgs = [w for w in ctx.user_warnings() if 'layout' not in w]
            ctx.check(not msgs, f'{name}: warned {msgs}')
        ctx.equal(len(plt.get_fignums()), 1, f'{name}: number of figures')
        return plt.gcf()


def panels(fig):
    """Axes of the figure without those of the colour bars."""
    return [a for a in fig.axes if a.get_label() != '<colorbar>']


def days(x):
    x = np.asarray(x).astype('datetime64[ns]')
    return (x - np.datetime64('2000-01-01', 'ns')) / np.timedelta64(
        86400 * 10 ** 9, 'ns')


def judge_size(ctx, fig, want):
    ctx.close(fig.get_size_inches(), np.array(want, dtype=float), 1e-9,
              'size of the figure')


def judge_layout(ctx, axes, layout, n):
    ctx.equal(len(axes), n, 'number of panels')
    for k, ax in enumerate(axes):
        ss = ax.get_subplotspec().get_topmost_subplotspec()
        g = ss.get_gridspec()
        ctx.equal((g.nrows, g.ncols), tuple(layout), 'layout')
        ctx.equal((ss.rowspan.start, ss.colspan.start),
                  (k // layout[1], k % layout[1]), f'place of panel {k}')


def judge_curves(ctx, axes, t, values, titles, ylabel):
    for k, (ax, v) in enumerate(zip(axes, values)):
        v = np.asarray(v)
        cols = v.reshape(v.shape[0], -1)
        lines = [ln for ln in ax.get_lines()]
        ctx.equal(len(lines), cols.shape[1], f'panel {k}: number of curves')
        for j, ln in enumerate(lines):
            ctx.close(days(ln.get_xdata(orig=True)), np.ravel(t), 2e-10,
                      f'panel {k}: times')
            ctx.close(np.asarray(ln.get_ydata(orig=True), float), cols[:, j],
                      1e-11 * np.max(np.abs(cols)),
                      f'panel {k}: values of curve {j}')
        ctx.equal(ax.get_title(), titles[k], f'panel {k}: title')
        ctx.equal(text(ax.get_ylabel()), ylabel, f'panel {k}: unit')


_coast = {}


def coastline(path):
    if path not in _coast:
        with shapefile.Reader(path) as sf:
            _coast[path] = [np.radians(np.array(s.points, float))
                            for s in sf.shapes()]
    return _coast[path]


def judge_maps(ctx, axes, th, ph, values, titles, label, clim, cmap,
               projection='mollweide'):
    """clim: list of accepted (vmin, vmax) per panel."""
    for k, (ax, v) in enumerate(zip(axes, values)):
        meshes = [c for c in ax.collections if isinstance(c, QuadMesh)]
        ctx.equal(len(meshes), 1, f'panel {k}: number of maps')
        pc = meshes[0]
        got = np.ma.filled(np.ma.asarray(pc.get_array(), dtype=float), np.nan)
        xy = np.asarray(pc.get_coordinates(), float)
        if (xy.shape[0] > 2 and got.shape == np.shape(v)
                and xy[1, 0, 1] < xy[-2, 0, 1]):
            xy, got = xy[::-1], got[::-1]       # drawn from south to north
        ctx.close(got.reshape(np.shape(v)) if got.size == np.size(v) else got,
                  np.asarray(v, dtype=float), 1e-11 * np.max(np.abs(v)),
                  f'panel {k}: values of the map')
        ctx.equal(xy.shape, (th.size + 1, ph.size + 1, 2),
                  f'panel {k}: cells of the map')
        x, y = np.radians(ph), np.radians(90 - th)
        ctx.close(xy[:, 1:-1, 0], np.broadcast_to(
            (x[1:] + x[:-1]) / 2, (th.size + 1, ph.size - 1)), 1e-12,
            f'panel {k}: longitudes')
        ctx.close(xy[1:-1, :, 1], np.broadcast_to(
            (y[1:] + y[:-1])[:, None] / 2, (th.size - 1, ph.size + 1)), 1e-12,
            f'panel {k}: latitudes')
        lim = tuple(float(z) for z in pc.get_clim())
        # matplotlib widens an empty range
        ctx.check(any(a == b == 0 for a, b in clim[k])
                  or any(np.allclose(lim, c, rtol=1e-11, atol=0)
                         for c in clim[k]),
                  f'panel {k}: colour limits {lim}, expected {clim[k]}')
        ctx.equal(pc.get_cmap().name, cmap, f'panel {k}: colormap')
        ctx.equal(ax.name, projection, f'panel {k}: projection')
        ctx.equal(ax.get_title(), titles[k], f'panel {k}: title')
        ctx.check(pc.colorbar is not None, f'panel {k}: no colour bar')
        ctx.equal(text(pc.colorbar.ax.get_ylabel()), label, f'panel {k}: unit')
        coast = coastline(str(cp.basicConfig['file.shp_coastline']))
        lines = ax.get_lines()
        ctx.equal(len(lines), len(coast), f'panel {k}: coastlines')
        for ln, c in list(zip(lines, coast))[::17]:
            ctx.close(np.stack(ln.get_data(orig=True), -1), c, 1e-12,
                      f'panel {k}: coastline')
    ctx.hit('coastline')


def text(s):
    """Doubled braces are drawn like single ones."""
    return s.replace('{{', '{').replace('}}', '}')


def unit(deriv):
    """The unit of the derivative, as a user reads it."""
    if not deriv:
        return 'nT'
    u = r'$\mathrm{nT}/\mathrm{yr}'
    return u + '$' if deriv == 1 else u + '^{%d}$' % deriv


def options(ctx, n, kw, what):
    """Random common keywords; returns expected layout, size, titles."""
    width = float(cp.basicConfig['plots.figure_width'])
    if ctx.chance(0.4):
        width = ctx.pick(4.0, 9.5, 12.0)
        cp.basicConfig['plots.figure_width'] = width
        ctx.hit('configured width')
    if what != 's' and ctx.chance(0.15):
        cp.basicConfig['params.r_surf'] = ctx.pick(6378.137, 3480., 6000.)
        ctx.hit('configured reference radius')
    size = (width, {'t': 0.8 * n, 'm': 0.4 * n, 's': 0.8}[what] * width)
    layout = (n, 1)
    if ctx.chance(0.3):
        size = kw['figsize'] = (ctx.pick(5., 8.), ctx.pick(4., 10.))
        ctx.hit('figsize')
    elif ctx.chance(0.1):
        kw['figsize'] = None
        ctx.hit('explicit None')
    if what != 's' and ctx.chance(0.4):
        layout = ctx.pick(*[(a, n // a) for a in range(1, n + 1)
                            if n % a == 0])
        kw['layout'] = layout if ctx.chance(0.6) else list(layout)
        ctx.hit('layout')
    return layout, size


def bad_layout(ctx, n):
    while True:
        a = (ctx.int(0, 4), ctx.int(0, 4))
        if a[0] * a[1] != n:
            return a


def rejected(ctx, fn, *args, **kw):
    ctx.hit('layout rejected')
    ctx.rejects(fn, *args, exc=ValueError, **kw)
    ctx.hit('no figure left by rejected requests')
    ctx.equal(len(plt.get_fignums()), 0, 'figure of a rejected request')


# -- functions ------------------------------------------------------------------
def timeseries(ctx):
    """plot_timeseries: curves, dates, titles, units, layout and size"""
    n, N = ctx.pick(1, 2, 3, 3, 4, 6), ctx.int(2, 60)
    if n == 1:
        ctx.hit('one panel')
    t = np.sort(ctx.uni(-30000, 30000, N))
    if ctx.chance(0.3):
        t = np.round(t)
    vals = []
    for _ in range(n):
        k = ctx.pick(None, 1, 2, 3)
        ctx.hit('several columns' if k and k > 1 else 'one column')
        vals.append(ctx.rng.normal(size=(N,) if k is None else (N, k)) * 100)
    ctx.hit('several curves')
    kw = {}
    layout, size = options(ctx, n, kw, 't')
    titles, ylabel = n * [''], ''
    if ctx.chance(0.6):
        ctx.hit('titles')
        titles = kw['titles'] = [f'panel {k}' for k in range(n)]
    if ctx.chance(0.6):
        ylabel = kw['ylabel'] = ctx.pick('nT', '$B$ (nT)')
    line = {}
    if ctx.chance(0.5):
        ctx.hit('line options')
        line = dict(color=ctx.pick('r', 'green'), linewidth=2.5,
                    linestyle=ctx.pick('--', ':'), marker='o')
    if ctx.chance(0.2):
        ctx.hit('integer argument')
        t = np.unique(np.round(t).astype(int))
        vals = [np.round(v[:t.size]).astype(int) for v in vals]
    keep = [v.copy() for v in vals], t.copy()
    ctx.describe(t=t, n=n, kw={k: str(v) for k, v in kw.items()})
    with Figures(ctx) as F:
        fig = F.draw(pu.plot_timeseries, t[:, None] if ctx.chance(0.1) else t,
                     *vals, **kw, **line)
        axes = panels(fig)
        judge_layout(ctx, axes, layout, n)
        judge_size(ctx, fig, size)
        judge_curves(ctx, axes, t, vals, titles, ylabel)
        for ax in axes:
            for ln in ax.get_lines() if line else ():
                ctx.equal((ln.get_color(), ln.get_linewidth(),
                           ln.get_linestyle(), ln.get_marker()),
                          (line['color'], 2.5, line['linestyle'], 'o'),
                          'options of the curve')
        plt.close('all')
        kw['layout'] = bad_layout(ctx, n)
        rejected(ctx, pu.plot_timeseries, t, *vals, **kw)
    for a, b in zip(vals, keep[0]):
        ctx.equal(a, b, 'input')
    ctx.equal(t, keep[1], 'input')
    ctx.hit('input unchanged')


def limits(ctx, kw, vals):
    """Random colour options; returns accepted limits per panel."""
    def lim(f, v):
        return -f(v), f(v)
    k = ctx.int(0, 3)
    if k == 0:
        kw['vmin'], kw['vmax'] = -ctx.uni(1, 50), ctx.uni(1, 50)
        ctx.hit('scalar limits')
        return [[(kw['vmin'], kw['vmax'])]] * len(vals)
    f = lambda x: np.amax(np.abs(x))                            # noqa: E731
    if k == 1:
        f = ctx.pick(lambda x: np.percentile(np.abs(x), 90),
                     lambda x: 2.5, lambda x: np.std(x))
        kw['limiter'] = f
        ctx.hit('limiter')
    own = [lim(f, v) for v in vals]
    # without limits, the first panel settles those of the following ones
    acc = [[own[0]]] + [[own[0], o] for o in own[1:]]
    if k == 2:
        ctx.hit('one limit')
        if ctx.chance(0.5):
            kw['vmax'] = 77.0
            return [[(a, 77.0) for a, _ in x] for x in acc]
        kw['vmin'] = -77.0
        return [[(-77.0, b) for _, b in x] for x in acc]
    ctx.hit('default limits')
    return acc


def maps(ctx):
    """plot_maps: values, coordinates, limits, colormap and projection"""
    n = ctx.pick(1, 2, 3, 3, 4)
    th = np.linspace(ctx.uni(0.5, 20), ctx.uni(150, 179), ctx.int(4, 24))
    ph = np.linspace(-ctx.uni(90, 179), ctx.uni(90, 179), ctx.int(4, 30))
    u = ctx.int(0, 5)
    if u == 0:
        ctx.hit('global grid')
        th, ph = np.linspace(0, 180, ctx.int(4, 24)), np.linspace(
            -180, 180, ctx.int(4, 30))
    elif u == 1:
        ctx.hit('grid of integers')
        th = np.arange(0, 181, ctx.pick(10, 15, 30))
        ph = np.arange(-180, 181, ctx.pick(10, 20, 45))
    vals = [ctx.rng.normal(size=(th.size, ph.size)) * ctx.pick(1, 100.)
            for _ in range(n)]
    if ctx.chance(0.2):
        ctx.hit('integer argument')
        vals = [np.round(200 * v).astype(int) for v in vals]
    kw = {}
    layout, size = options(ctx, n, kw, 'm')
    titles, label = n * [''], ''
    if ctx.chance(0.6):
        ctx.hit('titles')
        titles = kw['titles'] = [f'map {k}' for k in range(n)]
    if ctx.chance(0.6):
        label = kw['label'] = 'nT/yr'
    clim = limits(ctx, kw, vals)
    cmap = 'PuOr_r'
    if ctx.chance(0.4):
        cmap = kw['cmap'] = ctx.pick('nio', 'viridis', 'RdBu')
        ctx.hit('colormap')
    elif ctx.chance(0.1):
        kw['cmap'] = None
        ctx.hit('explicit None')
    proj = 'mollweide'
    if ctx.chance(0.3):
        proj = kw['projection'] = ctx.pick('hammer', 'aitoff', 'mollweide')
        ctx.hit('projection')
    keep = [v.copy() for v in vals]
    ctx.describe(th=th, ph=ph, n=n, kw={k: str(v) for k, v in kw.items()})
    with Figures(ctx) as F:
        g = th, ph
        if ctx.chance(0.2):
            g = np.meshgrid(th, ph, indexing='ij')
        fig = F.draw(pu.plot_maps, *g, *vals, **kw)
        axes = panels(fig)
        judge_layout(ctx, axes, layout, n)
        judge_size(ctx, fig, size)
        judge_maps(ctx, axes, th, ph, vals, titles, label, clim, cmap, proj)
        plt.close('all')
        kw['layout'] = bad_layout(ctx, n)
        rejected(ctx, pu.plot_maps, th, ph, *vals, **kw)
    for a, b in zip(vals, keep):
        ctx.equal(a, b, 'input')


def judge_spectrum(ctx, fig, spec, title, ylabel):
    axes = panels(fig)
    ctx.equal(len(axes), 1, 'number of panels')
    ax = axes[0]
    cols = np.asarray(spec, float).reshape(len(spec), -1)
    lines = ax.get_lines()
    ctx.equal(len(lines), cols.shape[1], 'number of curves')
    for ln, c in zip(lines, cols.T):
        ctx.equal(np.asarray(ln.get_xdata(orig=True), float),
                  np.arange(1, c.size + 1.0), 'degrees')
        y = np.ma.filled(np.ma.asarray(ln.get_ydata(orig=True), float),
                         np.nan)
        ctx.close(y, np.where(c == 0, np.nan, c), 1e-11 * np.abs(c),
                  'spectrum')
    ctx.equal(ax.get_yscale(), 'log', 'vertical axis')
    ctx.equal(ax.get_xscale(), 'linear', 'horizontal axis')
    ctx.equal(ax.get_title(), title, 'title')
    ctx.equal(text(ax.get_ylabel()), ylabel, 'unit')
    ctx.equal(ax.get_xlabel(), 'degree', 'label of the degrees')


def spectrum(ctx):
    """plot_power_spectrum: values per degree, zeros left out"""
    N = ctx.int(1, 25)
    s = 10 ** ctx.uni(ctx.pick(-3, -15), 9, N)
    if ctx.chance(0.2):
        s = 10 ** ctx.uni(-3, 9, (N, 2))
        ctx.hit('several columns')
    if ctx.chance(0.5) and N > 1:
        s[ctx.int(0, N - 1)] = 0.0
        ctx.hit('zeros in spectrum')
    if ctx.chance(0.1):
        s = np.round(s).astype(int)
    kw = {}
    _, size = options(ctx, 1, kw, 's')
    title = ylabel = ''
    if ctx.chance(0.5):
        title = kw['titles'] = 'a spectrum'
    if ctx.chance(0.5):
        ylabel = kw['ylabel'] = '(nT)$^2$'
    line = dict(color='r', marker='s') if ctx.chance(0.4) else {}
    keep = s.copy()
    ctx.describe(s=s, kw={k: str(v) for k, v in kw.items()})
    with Figures(ctx) as F:
        fig = F.draw(pu.plot_power_spectrum, s, **kw, **line)
        judge_spectrum(ctx, fig, s, title, ylabel)
        judge_size(ctx, fig, size)
        for ln in panels(fig)[0].get_lines() if line else ():
            ctx.equal((ln.get_color(), ln.get_marker()), ('r', 's'), 'line')
    ctx.equal(s, keep, 'input')
    ctx.hit('input unchanged')


# -- model methods -----------------------------------------------------------------
def random_model(ctx, source=None):
    order, pieces, nm = ctx.int(2, 5), ctx.int(1, 3), ctx.int(2, 6)
    lo, hi = ctx.pick((-2000, 6000), (-2000, 6000), (-60000, -2000))
    brk = G.breaks(ctx, pieces, lo=lo, hi=hi)
    if brk[0] < -10957:
        ctx.hit('historical model')
    c = G.pp_coeffs(ctx, order, brk, nm * (nm + 2),
                    ctx.pick(1e3, 1e3, 1e-4, 1.0))
    return cp.chaos.BaseModel('m', brk, order, c, source)


def request(ctx, m, kw):
    """Random nmax and deriv; returns the values expected to be used."""
    nmax, deriv, warn = m.nmax, 0, False
    k = ctx.int(0, 3)
    if k == 1:
        nmax = kw['nmax'] = ctx.int(1, m.nmax)
        ctx.hit('truncated')
    elif k == 2:
        kw['nmax'] = m.nmax + ctx.int(1, 4)
        warn = True
        ctx.hit('over-large nmax')
    elif k == 3:
        kw['nmax'] = None
        ctx.hit('explicit None')
    if ctx.chance(0.6):
        deriv = kw['deriv'] = ctx.pick(0, 1, 2, 3)
        if deriv:
            ctx.hit('derivative')
    elif ctx.chance(0.3):
        kw['deriv'] = None
    return nmax, deriv, warn


def draw(ctx, lo, hi):
    """A number, often a whole one."""
    x = ctx.uni(lo, hi)
    return float(np.round(x)) if ctx.chance(0.4) else x


def epoch(ctx, brk):
    t = float(G.times_in(ctx, brk, 1)[0])
    u = float(np.round(t))
    return u if ctx.chance(0.4) and brk[0] <= u <= brk[-1] else t


def arg(ctx, x):
    k = ctx.int(0, 3)
    if x == np.round(x) and ctx.chance(0.6):
        ctx.hit('integer argument')
        x = int(x)
    if k == 1:
        ctx.hit('single time array')
        return np.array([x])
    return np.asarray(x) if k == 2 else x


def model_timeseries(ctx):
    """BaseModel.plot_timeseries and CHAOS.plot_timeseries_tdep"""
    src = ctx.pick(None, 'internal', 'external')
    m = random_model(ctx, src)
    if src == 'external':
        ctx.hit('external model')
    fn = m.plot_timeseries
    if src != 'external' and ctx.chance(0.4):
        ch = cp.CHAOS(m.breaks, m.order, coeffs_tdep=m.coeffs)
        m, fn = ch.model_tdep, ch.plot_timeseries_tdep
        ctx.hit('tdep timeseries')
    kw = {}
    nmax, deriv, warn = request(ctx, m, kw)
    r, th, ph = draw(ctx, 3600, 8000), draw(ctx, 1, 179), draw(
        ctx, -180, 180)
    layout, size = options(ctx, 3, kw, 't')
    titles, ylabel = ['$B_r$', r'$B_\theta$', r'$B_\phi$'], unit(deriv)
    if ctx.chance(0.2):
        titles = kw['titles'] = ['a', 'b', 'c']
        ctx.hit('titles')
    if ctx.chance(0.2):
        ylabel = kw['ylabel'] = 'my unit'
    if ctx.chance(0.3):
        kw['extrapolate'] = ctx.pick('linear', 'off', None, 'constant')
    ctx.hit('model timeseries')
    ctx.describe(r=r, th=th, ph=ph, brk=m.breaks,
                 kw={k: str(v) for k, v in kw.items()})
    t = np.linspace(m.breaks[0], m.breaks[-1], 500)
    want = m.synth_values(t, r, th, ph, nmax=nmax, deriv=deriv)
    with Figures(ctx) as F:
        fig = F.draw(fn, arg(ctx, r), arg(ctx, th), arg(ctx, ph), warn=warn,
                     **kw)
        if warn:
            ctx.check(ctx.user_warnings(), 'no warning')
        axes = panels(fig)
        judge_layout(ctx, axes, layout, 3)
        judge_size(ctx, fig, size)
        judge_curves(ctx, axes, t, want, titles, ylabel)
        plt.close('all')
        kw['layout'] = bad_layout(ctx, 3)
        rejected(ctx, fn, r, th, ph, **kw)


TH, PH = np.linspace(1, 179, 320), np.linspace(-180, 180, 640)


def own_titles(nmax, deriv):
    return [f'$B_{c}$ ($n\\leq{nmax}$, deriv={deriv})'
            for c in ('r', r'\theta', r'\phi')]


def model_maps(ctx):
    """BaseModel.plot_maps and CHAOS.plot_maps_tdep"""
    src = ctx.pick(None, 'internal', 'external')
    m = random_model(ctx, src)
    fn = m.plot_maps
    if src == 'external':
        ctx.hit('external model')
    tdep = src != 'external' and ctx.chance(0.4)
    if tdep:
        ch = cp.CHAOS(m.breaks, m.order, coeffs_tdep=m.coeffs)
        m, fn = ch.model_tdep, ch.plot_maps_tdep
        ctx.hit('tdep maps')
    ctx.hit('model maps')
    kw = {}
    nmax, deriv, warn = request(ctx, m, kw)
    t = epoch(ctx, m.breaks)
    if ctx.chance(0.15):
        t, warn = float(m.breaks[-1] + 100.), True
        ctx.hit('time outside')
    r = draw(ctx, 3600, 8000)
    layout, size = options(ctx, 3, kw, 'm')
    want = m.synth_values(t, r, TH, PH, nmax=nmax, deriv=deriv, grid=True)
    clim = limits(ctx, kw, want)
    titles = own_titles(kw.get('nmax') or m.nmax, deriv)
    label = unit(deriv)
    if ctx.chance(0.2):
        titles = kw['titles'] = ['a', 'b', 'c']
        ctx.hit('titles')
    elif warn and kw.get('nmax', 0) and kw['nmax'] > m.nmax:
        titles = None
    if ctx.chance(0.2):
        label = kw['label'] = 'my unit'
    ctx.describe(t=t, r=r, brk=m.breaks, kw={k: str(v) for k, v in kw.items()})
    with Figures(ctx) as F:
        fig = F.draw(fn, arg(ctx, t), arg(ctx, r), warn=warn, **kw)
        if warn:
            ctx.check(ctx.user_warnings(), 'no warning')
        axes = panels(fig)
        judge_layout(ctx, axes, layout, 3)
        judge_size(ctx, fig, size)
        judge_maps(ctx, axes, TH, PH, want,
                   titles or [a.get_title() for a in axes], label, clim,
                   'PuOr_r')
        if titles is None:
            for a, c in zip(axes, ('$B_r$', r'$B_\theta$', r'$B_\phi$')):
                ctx.check(c in a.get_title(), f'title {a.get_title()}')
        if ctx.chance(0.3):
            plt.close('all')
            kw['layout'] = bad_layout(ctx, 3)
            rejected(ctx, fn, t, r, **kw)


def static_maps(ctx):
    """CHAOS.plot_maps_static"""
    spec = G.chaos_spec(ctx, external=False)
    m = G.build_chaos(ctx, spec)
    st = m.model_static
    ctx.hit('static maps')
    kw, nmax = {}, st.nmax
    if ctx.chance(0.5):
        nmax = kw['nmax'] = ctx.int(1, st.nmax)
        ctx.hit('truncated')
    r = draw(ctx, 6371, 8000)
    lim, cmap = [-200., 200.], 'nio'
    if ctx.chance(0.5):
        ctx.hit('static maps options')
        if ctx.chance(0.6):
            lim[1] = kw['vmax'] = ctx.uni(10, 500)
        if ctx.chance(0.6):
            lim[0] = kw['vmin'] = -ctx.uni(10, 500)
        if ctx.chance(0.6):
            cmap = kw['cmap'] = 'viridis'
    layout, size = options(ctx, 3, kw, 'm')
    ctx.describe(r=r, nmax=nmax, kw={k: str(v) for k, v in kw.items()})
    want = m.synth_values_static(r, TH, PH, nmax=nmax, grid=True)
    with Figures(ctx) as F:
        fig = F.draw(m.plot_maps_static, arg(ctx, r), **kw)
        axes = panels(fig)
        judge_layout(ctx, axes, layout, 3)
        judge_size(ctx, fig, size)
        judge_maps(ctx, axes, TH, PH, want, own_titles(nmax, 0), 'nT',
                   3 * [[tuple(lim)]], cmap)


def external_maps(ctx):
    """CHAOS.plot_maps_external: references, sources and their sums"""
    spec = G.chaos_spec(ctx, static=False)
    m = G.build_chaos(ctx, spec)
    brk = spec['breaks']
    p = ctx.path('rc.dat')
    G.write_rc_dat(p, G.rc_table(ctx, brk[0] - 5, brk[-1] + 5))
    cp.basicConfig['file.RC_index'] = p
    t = epoch(ctx, brk)
    r = draw(ctx, 6371, 9000)
    ref, src = ctx.pick(None, 'all', 'gsm', 'sm'), ctx.pick(
        None, 'all', 'external', 'internal')
    kw = {}
    if ref is not None or ctx.chance(0.5):
        kw['reference'] = ref
    if src is not None or ctx.chance(0.5):
        kw['source'] = src
    ctx.hit(ref or 'all', f'{src or "all"} source')
    ref, src = ref or 'all', src or 'all'
    if ctx.chance(0.3):
        ctx.hit('upper case')
        for k in list(kw):
            if kw[k]:
                kw[k] = kw[k].upper()
    if ctx.chance(0.4):
        kw['nmax'] = ctx.int(1, 2)
        ctx.hit('truncated')
    nmax = kw.get('nmax')
    if ctx.chance(0.3):
        cp.basicConfig['plots.figure_width'] = 7.5
        ctx.hit('configured width')
    if ctx.chance(0.15):
        cp.basicConfig['params.r_surf'] = ctx.pick(6378.137, 3480., 6000.)
        ctx.hit('configured reference radius')
    width = float(cp.basicConfig['plots.figure_width'])
    ctx.describe(t=t, r=r, kw={k: str(v) for k, v in kw.items()})
    ctx.hit('external maps')
    ph = np.linspace(-180, 180, 721)
    parts = []
    if ref in ('all', 'gsm'):
        parts.append(m.synth_values_gsm(t, r, TH, ph, nmax=nmax, source=src,
                                        grid=True))
    if ref in ('all', 'sm'):
        parts.append(m.synth_values_sm(t, r, TH, ph, nmax=nmax, source=src,
                                       grid=True))
    want = [sum(c) for c in zip(*parts)]
    who = f'{src} sources' if ref == 'all' else f'{ref.upper()} {src} sources'
    with Figures(ctx) as F:
        fig = F.draw(m.plot_maps_external, arg(ctx, t), arg(ctx, r), **kw)
        axes = panels(fig)
        judge_layout(ctx, axes, (3, 1), 3)
        judge_size(ctx, fig, (width, 1.2 * width))
        own = [(-np.abs(v).max(), np.abs(v).max()) for v in want]
        judge_maps(ctx, axes, TH, ph, want,
                   [f'$B_{c}$ ({who})' for c in ('r', r'\theta', r'\phi')],
                   'nT', [[own[0]], [own[0], own[1]], [own[0], own[2]]],
                   'PuOr_r')
        plt.close('all')
        ctx.rejects(m.plot_maps_external, t, r, reference='geo')
        ctx.rejects(m.plot_maps_external, t, r, source='crust')


def model_spectrum(ctx):
    """BaseModel.plot_power_spectrum"""
    src = ctx.pick(None, 'internal', 'external')
    m = random_model(ctx, src)
    if src == 'external':
        ctx.hit('external model')
    if ctx.chance(0.3):
        m.coeffs[..., 3:8] = 0.0
        ctx.hit('zeros in spectrum')
    t = epoch(ctx, m.breaks)
    kw = {}
    nmax, deriv, warn = request(ctx, m, kw)
    if ctx.chance(0.3):
        cp.basicConfig['params.r_surf'] = 6000.0
        ctx.hit('configured surface')
    radius = float(cp.basicConfig['params.r_surf'])
    if ctx.chance(0.6):
        radius = kw['radius'] = ctx.pick(ctx.uni(3000, 8000), 3485.0, 6371.2,
                                         3485, 6371, np.int64(3480))
        ctx.hit('radius')
    elif ctx.chance(0.3):
        kw['radius'] = None
    _, size = options(ctx, 1, kw, 's')
    title, ylabel = 'spatial power spectrum', f'({unit(deriv)})$^2$'
    if ctx.chance(0.2):
        title = kw['titles'] = 'mine'
    if ctx.chance(0.2):
        ylabel = kw['ylabel'] = 'my unit'
    ctx.hit('model spectrum')
    ctx.describe(t=t, brk=m.breaks, kw={k: str(v) for k, v in kw.items()})
    g = m.synth_coeffs(t, nmax=nmax, deriv=deriv)
    want = mu.power_spectrum(g, radius, source=src)
    with Figures(ctx) as F:
        fig = F.draw(m.plot_power_spectrum, t if ctx.chance(0.5) or
                     t != np.round(t) else int(t), warn=warn, **kw)
        if warn:
            ctx.check(ctx.user_warnings(), 'no warning')
        judge_spectrum(ctx, fig, want, title, ylabel)
        judge_size(ctx, fig, size)


def outside(ctx):
    """extrapolation, units and the single-epoch cases"""
    for k in range(6):
        ctx.equal(text(du.gauss_units(k)), unit(k), f'unit of derivative {k}')
    ctx.equal(du.gauss_units(), 'nT', 'default unit')
    m = random_model(ctx)
    ctx.hit('extrapolation off')
    r, th, ph = 7000., ctx.uni(1, 179), 10.
    t = np.linspace(m.breaks[0], m.breaks[-1], 500)
    want = m.synth_values(t, r, th, ph)
    ctx.describe(brk=m.breaks, th=th)
    with Figures(ctx) as F:
        fig = F.draw(m.plot_timeseries, r, th, ph, extrapolate='off')
        judge_curves(ctx, panels(fig), t, want,
                     ['$B_r$', r'$B_\theta$', r'$B_\phi$'], 'nT')


FAMILIES = [Family('timeseries', timeseries, 150, 1500),
            Family('maps', maps, 80, 800),
            Family('spectrum', spectrum, 150, 1500),
            Family('model_timeseries', model_timeseries, 100, 1000),
            Family('model_maps', model_maps, 40, 400),
            Family('static_maps', static_maps, 20, 200),
            Family('external_maps', external_maps, 40, 400),
            Family('model_spectrum', model_spectrum, 150, 1500),
            Family('outside', outside, 30, 300)]
