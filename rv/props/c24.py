"""C24: RC-index files are read, converted and refreshed faithfully."""
import email.message
import io
import os
import pathlib
import urllib.error
import urllib.request
import urllib.response

import h5py
import numpy as np

from ..core import cp, Family
from .. import refs as R, gens as G

du = cp.data_utils
COLS = ['time', 'RC', 'RC_e', 'RC_i', 'flag']
REQUIRED = ['one row', 'long file', 'comment lines', 'comment at a row',
            'blank lines', 'CRLF', 'tabs', 'no final newline', 'signs',
            'exponents', 'many flags', 'dates as index', 'path object',
            'overwrite', 'dat and h5', 'shorter than before', 'missing',
            'malformed', 'empty', 'unencodable', 'directory', 'binary',
            'bad target', 'target open', 'download', 'listing unreachable',
            'listing without file', 'file not found', 'file unreadable',
            'sequence of faults', 'refresh after faults', 'RC from h5',
            'numeric flags', 'duplicate times', 'rows not in time order',
            'published size']


def table(ctx, n):
    """Columns as text and as numbers, exactly as written."""
    style = ctx.pick('hourly', 'irregular', 'wild')
    rows, vals = [], []
    t0 = round(ctx.uni(-1000, 9000), 4)
    flags = ctx.pick('D', 'DP', 'DPQ', 'DPQX*', '0123')
    if len(flags) > 3 and flags[0] != '0':
        ctx.hit('many flags')
    if flags[0] == '0':
        ctx.hit('numeric flags')
    for k in range(n):
        if style == 'hourly':
            x = [f'{t0 + k / 24:.6f}'] + [f'{v:.2f}' for v in
                                          ctx.rng.normal(size=3) * 20]
        elif style == 'irregular':
            x = [f'{t0 + 3 * k + ctx.rng.random():.5f}'] + [
                f'{v:.4f}' for v in ctx.rng.normal(size=3) * 300]
        else:
            x = [f'{t0 + k:.3f}'] + [ctx.pick(
                '0', '-0.0', '+12.5', '1e2', '-3.25E-03', '.5', '7.', '-999',
                '123456789.123456', repr(float(ctx.rng.normal())))
                for _ in range(3)]
            ctx.hit('signs', 'exponents')
        rows.append(x + [flags[ctx.int(0, len(flags) - 1)]])
        vals.append([float(v) for v in x])
    if n > 3 and ctx.chance(0.1):
        rows[2][0], vals[2][0] = rows[1][0], vals[1][0]
        ctx.hit('duplicate times')
    if n > 3 and ctx.chance(0.15):
        k = ctx.rng.permutation(n) if ctx.chance(0.5) else \
            np.r_[n // 2:n, 0:n // 2]
        rows, vals = [rows[i] for i in k], [vals[i] for i in k]
        ctx.hit('rows not in time order')
    return rows, np.array(vals), [r[4] for r in rows]


def text(ctx, rows):
    nl = '\r\n' if ctx.chance(0.15) else '\n'
    if nl != '\n':
        ctx.hit('CRLF')
    # a NUL-free mix of separators, comments and blank lines
    seps = ctx.pick([' '], ['  ', ' ', '    '], ['\t'], [' \t ', ' '])
    if '\t' in ''.join(seps):
        ctx.hit('tabs')
    lead = ctx.pick('', ' ', '   ')
    out = []
    if ctx.chance(0.6):
        ctx.hit('comment lines')
        out += ['# RC-index', '#  MJD2000    RC   RC_e   RC_i  flag',
                '#'][:ctx.int(1, 3)]
    extra = ctx.chance(0.25)
    for r in rows:
        line = lead + r[0]
        for v in r[1:]:
            line += seps[int(ctx.rng.integers(len(seps)))] + v
        if extra and ctx.chance(0.2):
            k = ctx.int(0, 2)
            if k == 0:
                ctx.hit('comment at a row')
                line += '  # remark 1 2 3'
            elif k == 1:
                ctx.hit('comment lines')
                out.append('# 7000.5 1 2 3 D')
            else:
                ctx.hit('blank lines')
                out.append('')
        out.append(line)
    s = nl.join(out)
    if ctx.chance(0.85):
        s += nl
    else:
        ctx.hit('no final newline')
    return s


def draw(ctx, name='rc.dat', n=None):
    n = ctx.pick(1, 2, 3, ctx.int(4, 60), ctx.int(4, 60), ctx.int(200, 2000)) \
        if n is None else n
    if n > 200 and ctx.chance(0.02):
        n = ctx.pick(9000, 30000)
    ctx.hit('one row' if n == 1 else 'long file' if n > 200 else 'rows')
    rows, vals, flags = table(ctx, n)
    s = text(ctx, rows)
    p = ctx.path(name)
    with open(p, 'w', newline='') as f:
        f.write(s)
    return p, vals, flags, s


def judge_frame(ctx, df, vals, flags, parsed=False):
    cols = COLS[1:] if parsed else COLS
    ctx.equal(list(df.columns), cols, 'columns')
    ctx.equal(len(df), len(flags), 'number of rows')
    for k, c in enumerate(COLS[:4]):
        if c == 'time' and parsed:
            continue
        ctx.check(df[c].dtype == np.float64, f'{c}: dtype {df[c].dtype}')
        ctx.equal(df[c].to_numpy(), vals[:, k], c)
    ctx.equal([str(x) for x in df['flag'].to_numpy()], flags, 'flag')
    if parsed:
        got = (df.index.to_numpy().astype('datetime64[ns]')
               - np.datetime64('2000-01-01', 'ns')) / np.timedelta64(1, 'ns')
        ctx.close(got / 86400e9, vals[:, 0], 1e-10, 'dates')
    else:
        ctx.equal(df.index.to_numpy(), np.arange(len(flags)), 'index')


def judge_h5(ctx, path, vals, flags):
    with h5py.File(path, 'r') as f:
        ctx.equal(sorted(f), sorted(COLS), 'datasets')
        for k, c in enumerate(COLS[:4]):
            x = f[c][...]
            ctx.check(x.dtype.kind == 'f' and x.dtype.itemsize == 8,
                      f'{c}: dtype {x.dtype}')
            ctx.equal(x, vals[:, k], f'{c} in the h5-file')
        x = f['flag'][...]
        ctx.equal(x.dtype, np.dtype('S1'), 'dtype of the flags')
        ctx.equal([v.decode() for v in x.tolist()], flags,
                  'flag in the h5-file')


def read(ctx):
    """load_RC_datfile returns what the file says"""
    p, vals, flags, s = draw(ctx)
    ctx.describe(text=s[:200], n=len(flags))
    arg = p
    if ctx.chance(0.2):
        ctx.hit('path object')
        arg = pathlib.Path(p)
    pd_ = ctx.pick(None, False, True)
    kw = {} if pd_ is None and ctx.chance(0.5) else {'parse_dates': pd_}
    df = ctx.call(du.load_RC_datfile, arg, **kw)
    if pd_:
        ctx.hit('dates as index')
    judge_frame(ctx, df, vals, flags, bool(pd_))
    with open(p, newline='') as f:
        ctx.equal(f.read(), s, 'source after reading')


def convert(ctx):
    """save_RC_h5file keeps columns and values, also over an existing file"""
    h5 = ctx.path('rc.h5')
    for k in range(ctx.int(1, 3)):
        p, vals, flags, s = draw(ctx, f'rc{k}.dat')
        ctx.describe(**{f'text{k}': s[:100], f'n{k}': len(flags)})
        if k:
            ctx.hit('overwrite')
            if len(flags) < last:
                ctx.hit('shorter than before')
        last = len(flags)
        out = ctx.call(du.save_RC_h5file, h5, read_from=p)
        ctx.check(out is None, 'returned a value')
        ctx.check(not ctx.user_warnings(), f'warned {ctx.user_warnings()}')
        judge_h5(ctx, h5, vals, flags)


def sm_same(ctx):
    """SM coefficients computed from the dat and from the h5 file"""
    spec = G.chaos_spec(ctx, static=False, external=True)
    m = G.build_chaos(ctx, spec)
    brk = spec['breaks']
    tab = G.rc_table(ctx, brk[0] - 3, brk[-1] + 3)
    p, h5 = ctx.path('rc.dat'), ctx.path('rc.h5')
    G.write_rc_dat(p, tab, comment=ctx.chance(0.5))
    ctx.call(du.save_RC_h5file, h5, read_from=p)
    t = G.times_in(ctx, brk, ctx.int(1, 5))
    if ctx.chance(0.3):
        t[0] = tab['time'][ctx.int(0, tab['time'].size - 1)]
        t[0] = min(max(t[0], brk[0]), brk[-1])
    t = t[0] if ctx.chance(0.2) else t
    ctx.describe(t=t, brk=brk, rc=tab['time'])
    ctx.hit('dat and h5', 'RC from h5')
    for src in ('external', 'internal', None):
        res = []
        for f in (p, h5):
            cp.basicConfig['file.RC_index'] = f
            res.append(ctx.call(m.synth_coeffs_sm, np.asarray(t), source=src))
            ctx.check(not ctx.user_warnings(), f'warned {ctx.user_warnings()}')
        ctx.equal(res[0], res[1], f'{src}: dat and h5')
        rc = np.interp(t, tab['time'], tab['RC_' + (src or 'e')[0]])
        want = ctx.call(m.synth_coeffs_sm, np.asarray(t), source=src, rc=rc)
        ctx.close(res[1], want, 1e-11 * (1 + np.abs(want)) * 300,
                  f'{src}: h5 and interpolated values')
    B = []
    for f in (p, h5):
        cp.basicConfig['file.RC_index'] = f
        B.append(ctx.call(m.synth_values_sm, t, 7000., 50., 10.))
    ctx.equal(np.stack(B[0]), np.stack(B[1]), 'values')


def faulty_source(ctx):
    """A source which cannot be read or parsed."""
    k = ctx.int(0, 9)
    p = ctx.path(f'bad{len(os.listdir(ctx.scratch))}.dat')
    good, *_ = draw(ctx, 'good.dat', ctx.int(2, 30))
    lines = open(good, newline='').read().splitlines()
    rows = [i for i, x in enumerate(lines) if x.strip()
            and not x.strip().startswith('#')]

    def write(s, mode='w'):
        with open(p, mode) as f:
            f.write(s)

    if k == 0:
        ctx.hit('missing')
        return ctx.path('nowhere/rc.dat') if ctx.chance(0.5) else \
            ctx.path('missing.dat')
    if k == 1:
        ctx.hit('directory')
        os.makedirs(p, exist_ok=True)
        return p
    if k == 2:
        ctx.hit('empty')
        write(ctx.pick('', '\n\n', '# RC index\n# time RC\n'))
        return p
    if k == 3:
        ctx.hit('binary')
        write(bytes(ctx.rng.integers(0, 256, 400).astype(
            np.uint8)) + b'\xff\xfe\x00 1 2 3 D\n', 'wb')
        return p
    if k == 4:
        ctx.hit('malformed')
        write('<!DOCTYPE html>\n<html><body><h1>404 Not Found</h1>\n'
              '</body></html>\n')
        return p
    if k == 5:
        ctx.hit('unencodable')
        i = ctx.pick(*rows)
        x = lines[i].split('#')[0].split()
        x[4] = ctx.pick('é', '√', 'ж')
        lines[i] = ' '.join(x)
        with open(p, 'w', encoding='utf8') as f:
            f.write('\n'.join(lines) + '\n')
        return p
    # one value that is not a number, anywhere in the file
    ctx.hit('malformed')
    i = ctx.pick(*rows)
    x = lines[i].split('#')[0].split()
    x[ctx.int(0, 3)] = ctx.pick('x', '1.2.3', '--', '12,5', '2000-01-01',
                                '1.0D+02', '99a')
    lines[i] = ' '.join(x)
    write('\n'.join(lines) + '\n')
    return p


def content(path):
    with open(path, 'rb') as f:
        return f.read()


def failing(ctx):
    """faults at every step of a refresh leave the existing file and warn"""
    h5 = ctx.path('rc.h5')
    p, vals, flags, _ = draw(ctx, 'first.dat', ctx.int(1, 40))
    exists = ctx.chance(0.85)
    if exists:
        du.save_RC_h5file(h5, read_from=p)
        before = content(h5)
    n = ctx.int(1, 4)
    if n > 1:
        ctx.hit('sequence of faults')
    kinds = []
    for _ in range(n):
        k = ctx.int(0, 5)
        kinds.append(k)
        ctx.describe(kinds=kinds)
        if k < 4:
            bad = faulty_source(ctx)
            out = ctx.call(du.save_RC_h5file, h5, read_from=bad)
        elif k == 4:
            ctx.hit('bad target')
            tgt = ctx.pick(ctx.path('none/rc.h5'), ctx.scratch)
            out = ctx.call(du.save_RC_h5file, tgt, read_from=p)
            ctx.check(not os.path.exists(ctx.path('none')), 'made a folder')
        elif exists:
            ctx.hit('target open')
            with h5py.File(h5, 'r') as f:
                out = ctx.call(du.save_RC_h5file, h5, read_from=p)
                ctx.equal(sorted(f), sorted(COLS), 'open file')
            if not ctx.user_warnings():     # replaced it in one step
                judge_h5(ctx, h5, vals, flags)
                before = content(h5)
                continue
        else:
            continue
        ctx.check(out is None, 'returned a value')
        ctx.check(len(ctx.user_warnings()) >= 1,
                  f'warnings: {ctx.user_warnings()}')
        if exists:
            ctx.check(os.path.exists(h5) and content(h5) == before,
                      'failed refresh changed the existing file')
    if exists:
        judge_h5(ctx, h5, vals, flags)
    else:
        ctx.check(not os.path.exists(h5), 'failed refresh left a new file')
    if ctx.chance(0.5):
        ctx.hit('refresh after faults')
        p, vals, flags, _ = draw(ctx, 'second.dat', ctx.int(1, 40))
        ctx.call(du.save_RC_h5file, h5, read_from=p)
        ctx.check(not ctx.user_warnings(), 'warned')
        judge_h5(ctx, h5, vals, flags)


# -- download ------------------------------------------------------------------
class Server(urllib.request.HTTPHandler, urllib.request.HTTPSHandler):
    """Stand-in for the network: answers from a dictionary."""

    def __init__(self, files):
        super().__init__()
        self.files, self.asked = files, []

    def answer(self, url):
        self.asked.append(url)
        for k, v in self.files.items():
            if url.endswith(k):
                if isinstance(v, Exception):
                    raise v
                return v
        raise urllib.error.HTTPError(url, 404, 'Not Found',
                                     email.message.Message(), io.BytesIO())

    def http_open(self, req):
        body = self.answer(req.full_url)
        h = email.message.Message()
        h['Content-Type'] = 'text/plain'
        r = urllib.response.addinfourl(io.BytesIO(body), h, req.full_url, 200)
        r.msg = 'OK'
        return r

    https_open = http_open

    def get(self, url, *args, **kwargs):
        class Page:
            pass
        page = Page()
        page.url, page.content = url, self.answer(url)
        page.text, page.status_code = page.content.decode(), 200
        page.ok, page.raise_for_status = True, lambda: None
        return page


def listing(ctx, name):
    # Apache listing: header, rule, parent directory, then the files
    rows = ['<tr><th>Name</th><th>Last modified</th></tr>',
            '<tr><th colspan="5"><hr></th></tr>',
            '<tr><td></td><td><a href="/files/">Parent Directory</a></td>'
            '<td>&nbsp;</td></tr>',
            '<tr><td></td><td><a href="older.txt">older.txt</a></td>'
            '<td>2019-01-01 10:00 </td></tr>',
            f'<tr><td></td><td><a href="{name}">{name}</a></td>'
            '<td align="right">2024-05-06 08:42  </td></tr>',
            '<tr><td></td><td><a href="z.txt">z.txt</a></td>'
            '<td>2022-01-01 10:00 </td></tr>']
    return rows


def download(ctx):
    """a refresh from the server, with faults at each step"""
    try:
        import requests
        import lxml                                             # noqa: F401
    except ImportError:
        ctx.check(True, 'requests not installed')
        ctx.hit('download', 'listing unreachable', 'listing without file',
                'file not found', 'file unreadable')
        return
    h5 = ctx.path('rc.h5')
    p, vals, flags, _ = draw(ctx, 'first.dat', ctx.int(1, 40))
    du.save_RC_h5file(h5, read_from=p)
    before = content(h5)
    name = ctx.pick('RC_1997-2024_v5.dat', 'RC_2000-2020_Aug_v4.dat')
    p2, vals2, flags2, s2 = draw(ctx, 'second.dat', ctx.int(1, 40))
    rows = listing(ctx, name)
    fault = ctx.pick('none', 'none', 'listing unreachable',
                     'listing without file', 'file not found',
                     'file unreadable')
    files = {name: s2.encode(), 'older.txt': b'1 2 3 4 D\n',
             'z.txt': b'5 6 7 8 P\n'}
    if fault == 'listing without file':
        rows = rows[:ctx.int(1, 4)]
    if fault == 'file not found':
        files.pop(name)
    if fault == 'file unreadable':
        files[name] = ctx.pick(b'', b'<html>down</html>\n', s2.encode()
                               + b'\n1 2 x 4 D\n', OSError('reset by peer'),
                               TimeoutError('timed out'),
                               urllib.error.URLError('no route'))
    page = ('<html><body><table>' + '\n'.join(rows)
            + '</table></body></html>').encode()
    files['RC/current/'] = page
    if fault == 'listing unreachable':
        files['RC/current/'] = ctx.pick(
            requests.exceptions.ConnectionError('no network'),
            requests.exceptions.Timeout('slow'), b'', b'<html></html>')
    srv = Server(files)
    ctx.hit('download' if fault == 'none' else fault)
    ctx.describe(fault=fault, name=name, text=s2[:150])
    keep = requests.get, requests.Session.get, urllib.request._opener
    requests.get = srv.get
    requests.Session.get = lambda self, url, **kw: srv.get(url)
    urllib.request.install_opener(urllib.request.build_opener(srv))
    try:
        kw = {} if ctx.chance(0.5) else {'read_from': None}
        ctx.call(du.save_RC_h5file, h5, **kw)
        msgs = ctx.user_warnings()
        if fault == 'none' and ctx.chance(0.5):
            judge_frame(ctx, ctx.call(du.load_RC_datfile), vals2, flags2)
    finally:
        requests.get, requests.Session.get, opener = keep
        urllib.request.install_opener(opener)
    ctx.check(srv.asked, 'nothing was requested')
    if fault == 'none':
        ctx.check(not msgs, f'warned {msgs}')
        judge_h5(ctx, h5, vals2, flags2)
    else:
        ctx.check(len(msgs) >= 1, f'{fault}: warnings {msgs}')
        ctx.check(content(h5) == before, f'{fault}: failed refresh changed '
                  'the existing file')


def real_size(ctx):
    """files of the size of the published index (more than 250000 hourly rows)"""
    ctx.hit('published size')
    n = ctx.pick(240000, 270001, 300000)
    t = np.round(-800.0 + (np.arange(n) + 0.5) / 24, 4)
    rc = np.round(ctx.rng.normal(size=(n, 3)) * 30, 2)
    flags = np.where(ctx.rng.random(n) < 0.9, 'D', 'P')
    p, h5 = ctx.path('rc.dat'), ctx.path('rc.h5')
    with open(p, 'w') as f:
        f.write('# RC-index\n')
        f.write(''.join(f'{a:.4f} {b:8.2f} {c:8.2f} {d:8.2f} {e}\n'
                        for a, (b, c, d), e in zip(t.tolist(), rc.tolist(),
                                                   flags.tolist())))
    vals = np.c_[t, rc]
    ctx.describe(n=n)
    judge_frame(ctx, ctx.call(du.load_RC_datfile, p), vals, flags.tolist())
    ctx.call(du.save_RC_h5file, h5, read_from=p)
    judge_h5(ctx, h5, vals, flags.tolist())


FAMILIES = [Family('read', read, 1600, 32000),
            Family('convert', convert, 800, 16000),
            Family('sm_same', sm_same, 500, 10000),
            Family('failing', failing, 1200, 24000),
            Family('download', download, 600, 12000),
            Family('real_size', real_size, 2, 12)]
