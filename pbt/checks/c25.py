"""C25: plots contain the arrays requested, one figure per request, and alter nothing."""
import os
import re
import contextlib
import numpy as np
from hypothesis import strategies as st
from pbt import gen, core, drive
from pbt.core import Sub, Probe, Skip, Violation, require, fail

PROPERTY = 'C25'
RULE = ('random modes (files written as a fit writes them, and real fits), data, coordinates, selections of variables, modes, '
        'frequencies, slices, points, times and options are plotted with figures intercepted before rendering; what the '
        'axes were given (contoured arrays with their coordinates, lines, marked maxima) is compared with the arrays '
        'selected independently; non-trivial = at least two figures, or an option that changes what is drawn')
ASSUMPTIONS = ['figures are judged by the arrays handed to matplotlib, not by rendered pixels']


class Fig:
    def __init__(self, fig, contours, target):
        self.target = target
        self.axes = []
        for ax in fig.axes:
            lines = [(np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float)) for l in ax.lines]
            cs = contours.get(ax, [])
            if cs or lines:
                self.axes.append(dict(contours=cs, lines=lines, xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(),
                                      title=ax.get_title(), limits=(sorted(ax.get_xlim()), sorted(ax.get_ylim())),
                                      scales=(ax.get_xscale(), ax.get_yscale()), aspect=ax.get_aspect(),
                                      ticks=(np.array(ax.get_xticks(), dtype=float), np.array(ax.get_yticks(), dtype=float)),
                                      scatter=[np.array(c.get_offsets(), dtype=float)
                                                                     for c in ax.collections if hasattr(c, 'get_sizes')
                                                                     and len(c.get_offsets()) > 100]))
        st_ = getattr(fig, '_suptitle', None)
        self.title = st_.get_text() if st_ is not None else ''
        self.size = tuple(float(v) for v in fig.get_size_inches())
        self.titles = [self.title] + [ax.get_title() for ax in fig.axes]


class Recorder:
    def __init__(self):
        self.figs, self.contours, self.videos = [], {}, []
        self.shown = []


@contextlib.contextmanager
def record():
    """figures shown or saved in this block, in order; nothing is rendered"""
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    from matplotlib.axes import Axes
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    rec = Recorder()
    contourf, savefig, show, idle = Axes.contourf, Figure.savefig, plt.show, FigureCanvasAgg.draw_idle

    def my_contourf(self, *a, **k):
        out = contourf(self, *a, **k)
        n = 3 if len(a) >= 3 else 1
        arr = [np.array(v) for v in a[:n]]
        if n == 1:
            arr = [np.arange(arr[0].shape[1]), np.arange(arr[0].shape[0]), arr[0]]
        rec.contours.setdefault(self, []).append(tuple(arr))
        return out

    def my_savefig(self, fname, *a, **k):
        path = None
        if isinstance(fname, (str, os.PathLike)):
            path = os.path.abspath(os.fspath(fname))
            with open(path, 'wb') as fh:
                fh.write(b'figure %d' % len(rec.figs))
        rec.figs.append(Fig(self, rec.contours, path or 'pages'))

    def my_show(*a, **k):
        for n in plt.get_fignums():
            f = plt.figure(n)
            if f not in rec.shown:
                rec.shown.append(f)
                rec.figs.append(Fig(f, rec.contours, None))
    Axes.contourf, Figure.savefig, plt.show = my_contourf, my_savefig, my_show
    FigureCanvasAgg.draw_idle = lambda self, *a, **k: None
    plt.close('all')
    try:
        yield rec
    finally:
        Axes.contourf, Figure.savefig, plt.show, FigureCanvasAgg.draw_idle = contourf, savefig, show, idle
        plt.close('all')


def same(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, lambda: f'{what}: shape {a.shape} drawn, {b.shape} requested')
    if a.size:
        t = 1e-10 * max(1e-300, np.nanmax(np.abs(b[np.isfinite(b)])) if np.isfinite(b).any() else 0)
        ok = np.isclose(a, b, rtol=1e-9, atol=t, equal_nan=True)
        require(ok.all(), lambda: f'{what}: {(~ok).sum()} of {a.size} values differ from the array requested, '
                                  f'e.g. {a[~ok][0]!r} instead of {b[~ok][0]!r}')


def judge_contour(ax, x, y, z, what):
    require(len(ax['contours']) == 1, lambda: f'{what}: {len(ax["contours"])} contours in one axes')
    X, Y, Z = ax['contours'][0]
    if X.ndim == 2:
        X, Y = X[0, :], Y[:, 0]
    same(Z, z, what + ': values')
    same(X, x, what + ': horizontal coordinate')
    same(Y, y, what + ': vertical coordinate')
    inside(ax, X, Y, what)


def inside(ax, x, y, what):
    """nothing of what is drawn lies outside the axes"""
    if len(x) == len(y) and not ax['contours']:
        ok = np.ones(len(x), dtype=bool)          # a point that cannot be drawn has neither coordinate
        for v, scale in zip((x, y), ax['scales']):
            ok &= np.isfinite(v) & (v > 0 if scale == 'log' else True)
        x, y = x[ok], y[ok]
    for (lo, hi), v, nm in zip(ax['limits'], (x, y), ('horizontal', 'vertical')):
        t = 1e-9 * max(abs(lo), abs(hi))
        require(not v.size or lo - t <= v.min() and v.max() <= hi + t,
                lambda: f'{what}: {nm} limits {lo:.6g} to {hi:.6g} cut off what lies between {v.min():.6g} and {v.max():.6g}')


def shaped(g, equal):
    for a in g.axes:
        require((a['aspect'] == 1) == bool(equal), lambda: f'aspect {a["aspect"]} of axes asked to be {"equal" if equal else "free"}')


def judge_max(ax, x, y, mode, what):
    """lines through the maxima of |mode| (y, x)"""
    a = np.abs(mode)
    jj, ii = np.where(a >= a.max() * (1 - 1e-12))
    hs = sorted({float(l[1][0]) for l in ax['lines'] if l[1][0] == l[1][-1] and l[0][0] != l[0][-1]})
    vs = sorted({float(l[0][0]) for l in ax['lines'] if l[0][0] == l[0][-1] and l[1][0] != l[1][-1]})
    same(hs, sorted({float(y[j]) for j in jj}), what + ': horizontal lines through the maximum')
    same(vs, sorted({float(x[i]) for i in ii}), what + ': vertical lines through the maximum')


def match(figs, wanted, what, saved, title=''):
    """every wanted (name parts, judge) is one of the figures, and no other figure is there"""
    require(len(figs) == len(wanted), lambda: f'{what}: {len(figs)} figures for {len(wanted)} requests')
    if saved is not None:
        d, fname = saved
        base, ext = os.path.splitext(fname)
        names = [f.target for f in figs]
        for n in names:
            require(n is not None, lambda: f'{what}: a figure was shown, not saved')
            require(os.path.dirname(n) == os.path.abspath(d), lambda: f'{what}: saved in {os.path.dirname(n)}')
            b = os.path.basename(n)
            require(b.startswith(base) and b.endswith(ext), lambda: f'{what}: saved as {b}, file name given {fname}')
        require(len(set(names)) == len(names), lambda: f'{what}: figures saved under the same name: {sorted(names)}')
    else:
        require(all(f.target is None for f in figs), lambda: f'{what}: saved though no file name was given')
    for g in figs:
        require(any(title in t for t in g.titles), lambda: f'{what}: titled {g.titles}, asked for {title!r}')
    left = list(range(len(figs)))
    for k, (parts, judge) in enumerate(wanted):
        first, hit = None, None
        for j in sorted(left, key=lambda j: abs(j - k)):
            try:
                judge(figs[j])
                hit = j
                break
            except Violation as e:
                first = first or e
        if hit is None:
            raise first
        left.remove(hit)
        if saved is not None:
            b = os.path.basename(figs[hit].target)[len(os.path.splitext(saved[1])[0]):]
            for p in parts:
                require(re.search(p + r'(?!\d)', b), lambda: f'{what}: figure of {parts} saved as {b}')


def frozen(*arrs):
    return [None if a is None else np.array(a, copy=True) for a in arrs]


def unchanged(before, arrs, what):
    for b, a in zip(before, arrs):
        if b is not None:
            require(b.dtype == a.dtype and np.array_equal(b, np.asarray(a), equal_nan=b.dtype.kind in 'fc'),
                    lambda: f'{what}: plotting altered what it was given')


def coast(kind):
    import pyspod.utils.postproc as post
    from scipy.io import loadmat
    z = loadmat(os.path.join(os.path.dirname(post.__file__), 'plotting_support',
                             'coast.mat' if kind.lower() == 'regular' else 'coast_centred.mat'))
    return np.stack([z['coastlon'].ravel(), z['coastlat'].ravel()], axis=1)


def axis(rng, n, kind):
    if kind == 'int':
        return np.arange(n) * 3 + int(rng.randint(-5, 6))
    if kind == 'lon':
        return np.linspace(0, 360, n, endpoint=False)
    if kind == 'pos':
        return np.linspace(50, 60, n)
    if kind == 'neg':
        return np.linspace(-60.5, -50, n)
    if kind == 'desc':
        return np.cumsum(rng.uniform(0.1, 2, n))[::-1] - 3
    return np.cumsum(rng.uniform(0.1, 2, n)) - 3


def write_modes(d, modes, layout):
    """modes (nf, *x, nv, nm) in the files of a fit"""
    os.makedirs(os.path.join(d, 'modes'))
    for f in range(len(modes)):
        if layout == 'freq':
            np.save(os.path.join(d, 'modes', f'freq_idx_{f:08d}.npy'), modes[f])
        else:
            for m in range(modes.shape[-1]):
                np.save(os.path.join(d, 'modes', f'freq_idx_f{f:08d}_m{m:08d}.npy'), modes[f][..., m])


def make_modes(c):
    rng = np.random.RandomState(c['seed'])
    shp = (c['nf'],) + tuple(c['xshape']) + (c['nv'], c['nm'])
    m = rng.standard_normal(shp) + 1j * rng.standard_normal(shp)
    return m, rng


def requested(freq, c):
    """a frequency whose nearest is freq[f]"""
    df = freq[1] - freq[0]
    return float(freq[c['f'] % len(freq)] + c['off'] * df)


def pick(c, sel, n):
    """selection as an int or a list of distinct indices"""
    v = [k % n for k in sel]
    v = list(dict.fromkeys(v))
    return v[0] if c.get('scalar') else (tuple(v) if c.get('astuple') else v)


def lst(v):
    return [v] if isinstance(v, int) else list(v)


DEFAULTS = dict(vars_idx=[0], modes_idx=[0], x1=None, x2=None, x3=None, x=None, limits_x1=(None,), limits_x2=(None,),
                fftshift=False, imaginary=False, plot_max=False, coastlines='', title='', filename=None, modes=None,
                shift180=False, equal_axes=False, slice_dim=0, slice_id=None, time_idx=[0], sampling=1, show_axes=True)


def lean(c, fn, *a, **kw):
    """call in which options at their documented default are left out, in half of the cases"""
    if c['seed'] % 2:
        kw = {k: v for k, v in kw.items() if k not in DEFAULTS or type(v) != type(DEFAULTS[k]) or v != DEFAULTS[k]}
    return fn(*a, **kw)


OPT = dict(off=st.sampled_from([0.0, 0.3, -0.4]), scalar=st.booleans(), astuple=st.booleans(), save=st.booleans(),
           vars=st.one_of(st.just([0]), st.lists(st.integers(0, 5), min_size=1, max_size=3)),
           modes=st.one_of(st.just([0]), st.lists(st.integers(0, 5), min_size=1, max_size=3)),
           f=st.integers(0, 9), seed=st.integers(0, 2 ** 20), nv=st.integers(1, 3), nm=st.integers(1, 3),
           nf=st.integers(2, 5), layout=st.sampled_from(['freq', 'freq', 'mode']), fname=st.sampled_from(['a.png', 'x_var.y.jpg']),
           title=st.sampled_from(['', 'some title']))
AX = st.sampled_from(['asc', 'asc', 'int', 'desc', 'lon', 'pos', 'neg'])


@st.composite
def cases2d(draw):
    c = {k: draw(v) for k, v in OPT.items()}
    c['xshape'] = [draw(st.integers(3, 6)), draw(st.integers(3, 6))]
    c['coords'] = draw(st.sampled_from(['none', 'asis', 'transposed', 'asis']))
    c['ax1'], c['ax2'] = draw(AX), draw(AX)
    c['l1'] = draw(st.sampled_from([None, None, [0, 2], [1, None], [0, None, 2]]))
    c['l2'] = draw(st.sampled_from([None, None, [0, 2], [1, None], [0, None, 2]]))
    for k in ('fftshift', 'imaginary', 'plot_max', 'shift180', 'given', 'equal_axes'):
        c[k] = draw(st.integers(0, 2)) == 0
    c['coast'] = draw(st.sampled_from(['', '', 'regular', 'Centred']))
    c['beyond'] = draw(st.integers(0, 4)) == 0
    return c


def lim(v, n):
    v = (None,) if v is None else tuple(v)
    s = slice(*v)
    return v, s, len(range(n)[s])


def modes2d(c, ctx):
    import pyspod.utils.postproc as post
    modes, rng = make_modes(c)
    n1, n2 = c['xshape']
    d = ctx.dir()
    write_modes(d, modes, c['layout'])
    out = os.path.join(d, 'figs')
    os.makedirs(out)
    freq = np.arange(c['nf']) * 0.25 + 0.25
    if c['coords'] == 'none':
        x1 = x2 = None
        X1, X2 = np.arange(n1), np.arange(n2)
    else:
        k1, k2 = (n2, n1) if c['coords'] == 'asis' else (n1, n2)
        X1, X2 = axis(rng, k1, c['ax1']), axis(rng, k2, c['ax2'])
        x1, x2 = X1, X2
    l1, s1, m1 = lim(c['l1'], len(X1))
    l2, s2, m2 = lim(c['l2'], len(X2))
    if m1 < 2 or m2 < 2:
        raise Skip('fewer than two coordinates')
    vs, ms = pick(c, c['vars'], c['nv']), pick(c, c['modes'], c['nm'])
    if c['beyond'] and not isinstance(ms, int):
        ms = list(ms) + [c['nm'] + 1]             # more modes asked for than there are
    f = c['f'] % c['nf']
    arr = modes[f].copy() if c['given'] else None
    ctx.label('coords=' + c['coords'], f'layout={c["layout"]}', f'shift180={c["shift180"]}', f'fftshift={c["fftshift"]}',
              f'imaginary={c["imaginary"]}', f'plot_max={c["plot_max"]}', f'save={c["save"]}', 'square' if n1 == n2 else 'oblong')
    before = frozen(x1, x2, arr, freq)
    files = drive.snapshot_tree(d)
    with record() as rec:
        lean(c, post.plot_2d_modes_at_frequency,
            d, freq_req=requested(freq, c), freq=freq, vars_idx=vs, modes_idx=ms, x1=x1, x2=x2, limits_x1=l1, limits_x2=l2,
            fftshift=c['fftshift'], imaginary=c['imaginary'], plot_max=c['plot_max'], coastlines=c['coast'],
            title=c['title'], path=out, filename=c['fname'] if c['save'] else None, modes=arr, shift180=c['shift180'],
            equal_axes=c['equal_axes'])
    unchanged(before, (x1, x2, arr, freq), 'plot_2d_modes_at_frequency')
    after = {k: v for k, v in drive.snapshot_tree(d).items() if not k.startswith('figs')}
    require(after == files, lambda: 'plotting altered the stored modes')

    def plane(v, m, tr):
        z = modes[f][:, :, v, m]
        if c['fftshift']:
            z = np.fft.fftshift(z, axes=1)
        if tr:
            z = z.T
        if c['shift180']:
            h = z.shape[1] // 2
            z = np.concatenate([z[:, h:], z[:, :h]], axis=1)
        return z[s2, s1]
    lon = X1[s1] - 180 if c['shift180'] else X1[s1]
    fits = len(X1) == n2 and len(X2) == n1
    tries = [not fits] if c['coords'] != 'none' or not fits else [False, True]
    problems = []
    for tr in tries:
        wanted = []
        for v in lst(vs):
            for m in lst(ms):
                if m >= c['nm']:
                    continue

                def judge(g, v=v, m=m):
                    z = plane(v, m, tr)
                    shaped(g, c['equal_axes'])
                    w = f'mode {m} of variable {v} at frequency index {f}'
                    require(len(g.axes) == (2 if c['imaginary'] else 1), lambda: f'{w}: {len(g.axes)} panels')
                    for a, part, nm in zip(g.axes, (z.real, z.imag), ('real', 'imaginary')):
                        judge_contour(a, lon, X2[s2], part, f'{w}, {nm} part')
                        if c['plot_max']:
                            judge_max(a, lon, X2[s2], z, w)
                        if c['coast']:
                            require(len(a['scatter']) == 1, lambda: f'{w}: coastlines not drawn')
                            same(a['scatter'][0], coast(c['coast']), f'{w}: {c["coast"]} coastlines')
                        else:
                            require(not a['scatter'], lambda: f'{w}: coastlines not asked for')
                    require(f'mode: {m}' in g.title and f'var: {v}' in g.title, lambda: f'{w}: titled {g.title!r}')
                wanted.append(((f'var{v}', f'mode{m}'), judge))
        try:
            match(rec.figs, wanted, 'plot_2d_modes_at_frequency', (out, c['fname']) if c['save'] else None, c['title'])
            break
        except Violation as e:
            problems.append(e)
    else:
        raise problems[0]
    if len(rec.figs) > 1 or c['fftshift'] or c['shift180'] or c['plot_max'] or c['imaginary']:
        ctx.nontrivial()


@st.composite
def cases3d(draw):
    c = {k: draw(v) for k, v in OPT.items()}
    n = draw(st.integers(2, 5))
    c['xshape'] = [draw(st.one_of(st.just(n), st.integers(2, 5))) for _ in range(3)]
    c['coords'] = draw(st.booleans())
    c['kinds'] = [draw(AX) for _ in range(3)]
    c['slice_dim'] = draw(st.integers(0, 2))
    c['slice_id'] = draw(st.one_of(st.none(), st.integers(0, 6)))
    for k in ('fftshift', 'imaginary', 'plot_max'):
        c[k] = draw(st.integers(0, 2)) == 0
    return c


def modes3d(c, ctx):
    import pyspod.utils.postproc as post
    modes, rng = make_modes(c)
    d = ctx.dir()
    write_modes(d, modes, c['layout'])
    out = os.path.join(d, 'figs')
    os.makedirs(out)
    freq = np.arange(c['nf']) * 0.25
    X = [axis(rng, n, k) for n, k in zip(c['xshape'], c['kinds'])] if c['coords'] else [np.arange(n) for n in c['xshape']]
    x1, x2, x3 = X if c['coords'] else (None,) * 3
    vs, ms = pick(c, c['vars'], c['nv']), pick(c, c['modes'], c['nm'])
    f, sd = c['f'] % c['nf'], c['slice_dim']
    sid = None if c['slice_id'] is None else c['slice_id'] % c['xshape'][sd]
    ctx.label(f'slice_dim={sd}', f'slice_id={"given" if sid is not None else "max"}',
              f'sizes={len(set(c["xshape"]))}', f'coords={c["coords"]}')
    before = frozen(x1, x2, x3)
    with record() as rec:
        lean(c, post.plot_3d_modes_slice_at_frequency, 
            d, freq_req=requested(freq, c), freq=freq, vars_idx=vs, modes_idx=ms, x1=x1, x2=x2, x3=x3, slice_dim=sd,
            slice_id=sid, fftshift=c['fftshift'], imaginary=c['imaginary'], plot_max=c['plot_max'], title=c['title'],
            path=out, filename=c['fname'] if c['save'] else None)
    unchanged(before, (x1, x2, x3), 'plot_3d_modes_slice_at_frequency')
    rest = [k for k in range(3) if k != sd]
    wanted = []
    for v in lst(vs):
        for m in lst(ms):
            def judge(g, v=v, m=m):
                q = modes[f][..., v, m]
                i = sid if sid is not None else np.unravel_index(np.argmax(np.abs(q)), q.shape)[sd]
                z = np.take(q, i, axis=sd)
                if c['fftshift']:
                    z = np.fft.fftshift(z, axes=1)
                z = z.T
                w = f'slice {i} of axis {sd} of mode {m} of variable {v} at frequency index {f}'
                require(len(g.axes) == (2 if c['imaginary'] else 1), lambda: f'{w}: {len(g.axes)} panels')
                for a, part in zip(g.axes, (z.real, z.imag)):
                    judge_contour(a, X[rest[0]], X[rest[1]], part, w)
                    require((a['xlabel'], a['ylabel']) == (f'x{rest[0]+1}', f'x{rest[1]+1}'),
                            lambda: f'{w}: axes labelled {a["xlabel"]}, {a["ylabel"]}')
                    if c['plot_max']:
                        judge_max(a, X[rest[0]], X[rest[1]], z, w)
            wanted.append(((f'var{v}', f'mode{m}'), judge))
    match(rec.figs, wanted, 'plot_3d_modes_slice_at_frequency', (out, c['fname']) if c['save'] else None, c['title'])
    ctx.nontrivial()


@st.composite
def casestr(draw):
    c = {k: draw(v) for k, v in OPT.items()}
    nd = draw(st.integers(1, 3))
    c['xshape'] = [draw(st.integers(1, 5)) for _ in range(nd)]
    c['coords'] = draw(st.booleans())
    c['kinds'] = [draw(AX) for _ in range(nd)]
    c['pts'] = [[draw(st.integers(0, 9)) for _ in range(nd)] for _ in range(draw(st.integers(1, 3)))]
    c['jit'] = draw(st.sampled_from([0.0, 0.3]))
    c['what'] = draw(st.sampled_from(['modes', 'data']))
    c['nt'] = draw(st.integers(2, 14))
    c['limits'] = draw(st.one_of(st.none(), st.tuples(st.integers(0, 5), st.integers(1, 20)).map(list)))
    c['complex'] = draw(st.integers(0, 4)) == 0
    c['fftshift'] = draw(st.integers(0, 3)) == 0
    return c


def tracers(c, ctx):
    import pyspod.utils.postproc as post
    modes, rng = make_modes(c)
    d = ctx.dir()
    out = os.path.join(d, 'figs')
    os.makedirs(out)
    X = [axis(rng, n, k) for n, k in zip(c['xshape'], c['kinds'])] if c['coords'] else [np.arange(n) for n in c['xshape']]
    idx, coords = [], []
    for p in c['pts']:
        i = tuple(k % n for k, n in zip(p, c['xshape']))
        if i in idx:
            continue                              # the same point twice is one plot
        gaps = [np.min(np.abs(np.diff(np.sort(a)))) if len(a) > 1 else 1.0 for a in X]
        idx.append(i)
        coords.append(tuple(float(a[k] + c['jit'] * g) for a, k, g in zip(X, i, gaps)))
    vs, ms = pick(c, c['vars'], c['nv']), pick(c, c['modes'], c['nm'])
    x = X if c['coords'] else None
    saved = (out, c['fname']) if c['save'] else None
    ctx.label(c['what'], f'dim={len(X)}', f'points={len(idx)}', f'save={c["save"]}')
    before = frozen(*X)
    wanted = []
    if c['what'] == 'modes':
        write_modes(d, modes, c['layout'])
        freq = np.arange(c['nf']) * 0.25 + 0.25
        f = c['f'] % c['nf']
        fr = requested(freq, c)
        with record() as rec:
            lean(c, post.plot_mode_tracers, d, freq_req=fr, freq=freq, coords_list=coords, x=x, vars_idx=vs, modes_idx=ms,
                                   fftshift=c['fftshift'], title=c['title'], path=out, filename=c['fname'] if c['save'] else None)
        ph = np.linspace(0, 10 * np.pi, 100)
        for i in idx:
            for v in lst(vs):
                def judge(g, i=i, v=v):
                    w = f'tracers of variable {v} at point {i}, frequency index {f}'
                    require(len(g.axes) == len(lst(ms)), lambda: f'{w}: {len(g.axes)} panels for modes {ms}')
                    for a, m in zip(g.axes, lst(ms)):
                        require(len(a['lines']) == 1, lambda: f'{w}: {len(a["lines"])} lines for one mode')
                        q = modes[f][..., v, m]
                        if c['fftshift']:          # along the same dimension as in plots of the modes
                            q = np.fft.fftshift(q, axes=1 if q.ndim > 1 else 0)
                        q = q[i]
                        same(a['lines'][0][1], (q * np.exp(-1j * ph)).real, f'{w}, mode {m}')
                        # an oscillation of the frequency asked for
                        same(a['lines'][0][0] * 2 * np.pi * fr, ph, f'{w}, mode {m}: phase against time')
                        require(re.search(rf'\b{m}\b', a['ylabel']), lambda: f'{w}: panel of mode {m} labelled {a["ylabel"]!r}')
                wanted.append(((f'var{v}',), judge))
        match(rec.figs, wanted, 'plot_mode_tracers', saved, c['title'])
    else:
        shp = (c['nt'],) + tuple(c['xshape']) + (c['nv'],)
        data = rng.standard_normal(shp) + (1j * rng.standard_normal(shp) if c['complex'] else 0)
        copy = data.copy()
        kw, (a, b) = {}, (0, 10)
        if c['limits'] is not None:
            a, b = c['limits']
            b = max(b, a + 1)
            kw['time_limits'] = [a, b]
        if a >= c['nt']:
            raise Skip('no such times')
        with record() as rec:
            lean(c, post.plot_data_tracers, data, coords_list=coords, x=x, vars_idx=vs, title=c['title'], path=out,
                                   filename=c['fname'] if c['save'] else None, **kw)
        require(np.array_equal(data, copy), lambda: 'plot_data_tracers altered the data')
        b = min(b, c['nt'])
        for i in idx:
            for v in lst(vs):
                def judge(g, i=i, v=v):
                    w = f'data of variable {v} at point {i}, times {a} to {b - 1}'
                    require(len(g.axes) == 1 and len(g.axes[0]['lines']) == 1, lambda: f'{w}: not one line')
                    X_, Y_ = g.axes[0]['lines'][0]
                    same(Y_, data[(slice(a, b),) + i + (v,)].real, w)
                    same(X_, np.arange(a, b), w + ': time indices')
                wanted.append(((f'var{v}',), judge))
        match(rec.figs, wanted, 'plot_data_tracers', saved, c['title'])
    unchanged(before, X, 'tracers')
    ctx.nontrivial()


@st.composite
def casesdata(draw):
    c = {k: draw(v) for k, v in OPT.items()}
    c['xshape'] = [draw(st.integers(2, 6)), draw(st.integers(2, 6))]
    c['coords'] = draw(st.sampled_from(['none', 'asis', 'transposed']))
    c['ax1'], c['ax2'] = draw(AX), draw(AX)
    c['nt'] = draw(st.integers(1, 8))
    c['times'] = draw(st.lists(st.integers(-8, 7), min_size=1, max_size=3))
    c['complex'] = draw(st.integers(0, 4)) == 0
    c['what'] = draw(st.sampled_from(['fig', 'fig', 'fig', 'video']))
    c['sampling'] = draw(st.integers(1, 3))
    c['t0'] = draw(st.integers(0, 4))
    c['limits'] = draw(st.sampled_from(['all', 'past', 'default']))
    c['coast'] = draw(st.sampled_from(['', '', 'regular']))
    return c


def data2d(c, ctx):
    import pyspod.utils.postproc as post
    rng = np.random.RandomState(c['seed'])
    n1, n2 = c['xshape']
    shp = (c['nt'], n1, n2, c['nv'])
    data = rng.standard_normal(shp) + (1j * rng.standard_normal(shp) if c['complex'] else 0)
    d = ctx.dir()
    if c['coords'] == 'none':
        x1 = x2 = None
        X1, X2 = np.arange(n1), np.arange(n2)
    else:
        k1, k2 = (n2, n1) if c['coords'] == 'asis' else (n1, n2)
        x1, x2 = X1, X2 = axis(rng, k1, c['ax1']), axis(rng, k2, c['ax2'])
    fits = len(X1) == n2 and len(X2) == n1
    tries = [not fits] if c['coords'] != 'none' or not fits else [False, True]
    vs = pick(c, c['vars'], c['nv'])
    ts = list(dict.fromkeys(max(-c['nt'], min(t, c['nt'] - 1)) for t in c['times']))
    ts = ts[0] if c['scalar'] else ts
    ctx.label(c['what'], 'coords=' + c['coords'], f'complex={c["complex"]}')
    before = frozen(x1, x2, data)
    if c['what'] == 'video':
        frames_of(c, ctx, post, data, x1, x2, X1, X2, tries, vs, d)
        unchanged(before, (x1, x2, data), 'generate_2d_data_video')
        ctx.nontrivial()
        return
    with record() as rec:
        lean(c, post.plot_2d_data, data, time_idx=ts, vars_idx=vs, x1=x1, x2=x2, title=c['title'], path=d, coastlines=c['coast'],
                          filename=c['fname'] if c['save'] else None)
    unchanged(before, (x1, x2, data), 'plot_2d_data')
    problems = []
    for tr in tries:
        wanted = []
        for v in lst(vs):
            for t in lst(ts):
                def judge(g, v=v, t=t):
                    z = data[t, :, :, v].real
                    w = f'data of variable {v} at time {t}'
                    require(len(g.axes) == 1, lambda: f'{w}: {len(g.axes)} panels')
                    judge_contour(g.axes[0], X1, X2, z.T if tr else z, w)
                    require(bool(g.axes[0]['scatter']) == bool(c['coast']), lambda: f'{w}: coastlines')
                wanted.append(((f'var{v}', f'time{t}'), judge))
        try:
            match(rec.figs, wanted, 'plot_2d_data', (d, c['fname']) if c['save'] else None, c['title'])
            break
        except Violation as e:
            problems.append(e)
    else:
        raise problems[0]
    if len(rec.figs) > 1 or c['coords'] == 'transposed' or lst(ts) != [0]:
        ctx.nontrivial()


@contextlib.contextmanager
def movies():
    """movies saved, as (file, artists of every frame); there is no need of ffmpeg"""
    import shutil
    import matplotlib.animation as an
    which, save, avail = shutil.which, an.Animation.save, an.FFMpegWriter.isAvailable
    got = []

    def my_save(self, filename, *a, **k):
        got.append((os.path.abspath(filename), getattr(self, '_framedata', None) or getattr(self, '_artists', None)))
        self._draw_was_started = True
    shutil.which = lambda n, *a, **k: '/usr/bin/true' if n == 'ffmpeg' else which(n, *a, **k)
    an.Animation.save = my_save
    an.FFMpegWriter.isAvailable = classmethod(lambda cls: True)
    try:
        yield got
    finally:
        shutil.which, an.Animation.save = which, save
        an.FFMpegWriter.isAvailable = avail


def frames_of(c, ctx, post, data, x1, x2, X1, X2, tries, vs, d, call=None, t0=None, t1=None):
    t0 = min(c['t0'], c['nt'] - 1) if t0 is None else t0
    t1 = c['nt'] if t1 is None else t1
    with movies() as got, record():
        if call is None:
            end = {'all': t1, 'past': t1 + 3}.get(c['limits'])     # frames end with the data
            kw = {} if end is None else dict(time_limits=[t0, end])
            if end is None:
                t0, t1 = 0, min(t1, 10)
            lean(c, post.generate_2d_data_video, data, vars_idx=vs, sampling=c['sampling'], x1=x1, x2=x2,
                                        coastlines=c['coast'], path=d, filename='m.mp4', **kw)
        else:
            call()
        times = list(range(t0, t1))[::c['sampling']]
        require(len(got) == len(lst(vs)), lambda: f'{len(got)} movies for variables {vs}')
        require(len({g[0] for g in got}) == len(got), lambda: 'movies saved under the same name')
        for (name, frames), v in zip(got, lst(vs)):
            if frames is None:
                raise Skip('frames of the movie are not available')
            frames = list(frames)
            require(f'var{v}' in os.path.basename(name), lambda: f'movie of variable {v} saved as {name}')
            require(len(frames) == len(times), lambda: f'movie of {len(frames)} frames for times {times}')
            for fr, t in zip(frames, times):
                a = np.asarray(fr[0].get_array(), dtype=float)
                z = data[t, :, :, v].real
                ok = [a.size == z.size and np.allclose(a.ravel(), (z.T if tr else z).ravel()) for tr in tries]
                require(any(ok), lambda: f'frame of time {t} of variable {v} is not the data of that time')
                xy = np.asarray(fr[0].get_coordinates())
                same(xy[0, :, 0], X1, 'movie: horizontal coordinate')
                same(xy[:, 0, 1], X2, 'movie: vertical coordinate')


@st.composite
def caseslines(draw):
    c = {}
    c['what'] = draw(st.sampled_from(['eigs', 'freq', 'period', 'coeffs', 'compare', 'history', 'subplot']))
    c['seed'] = draw(st.integers(0, 2 ** 20))
    c['n'], c['m'] = draw(st.integers(2, 12)), draw(st.integers(1, 4))
    c['complex'] = draw(st.booleans())
    c['save'] = draw(st.booleans())
    c['sel'] = draw(st.lists(st.integers(0, 11), min_size=1, max_size=4))
    c['axes'] = draw(st.booleans())
    c['negfreq'] = draw(st.integers(0, 3)) == 0
    return c


def lines(c, ctx):
    import pyspod.utils.postproc as post
    rng = np.random.RandomState(c['seed'])
    n, m = c['n'], c['m']
    d = ctx.dir()
    kw = dict(path=d, filename='l.png' if c['save'] else None)
    saved = (d, 'l.png') if c['save'] else None
    what = c['what']
    ctx.label(what)

    def one(curves):
        def judge(g):
            ls = [l for a in g.axes for l in a['lines']]
            require(len(ls) == len(curves), lambda: f'{what}: {len(ls)} lines for {len(curves)} series')
            for k, (l, (x, y)) in enumerate(zip(ls, curves)):
                same(l[1], y, f'{what}: line {k}')
                if x is not None:
                    same(l[0], x, f'{what}: abscissae of line {k}')
            for a in g.axes:
                for l in a['lines']:
                    inside(a, l[0], l[1], what)
        return judge
    eigs = rng.uniform(0.1, 5, (n, m)) * 10.0 ** -np.arange(m)
    if c['complex']:
        eigs = eigs + 1j * rng.standard_normal((n, m))
    freq = np.arange(n) * 0.1 - (0.1 * (n // 2) if c['negfreq'] else 0)
    a, b = rng.standard_normal(n), rng.standard_normal(m + 3)
    wanted = [((), None)]
    given = (eigs, freq, a, b)
    before = frozen(*given)
    with record() as rec:
        if what == 'eigs':
            e = eigs[:, 0] if c['axes'] else eigs
            lean(c, post.plot_eigs, e, show_axes=c['axes'], **kw)
            cols = [e] if e.ndim == 1 else [e[:, k] for k in range(m)]
            wanted = [((), one([(q.real, q.imag) for q in cols]))]
        elif what == 'freq':
            post.plot_eigs_vs_frequency(eigs, freq, equal_axes=False, **kw)
            wanted = [((), one([(freq, eigs[:, k].real) for k in range(m)]))]
        elif what == 'period':
            post.plot_eigs_vs_period(eigs, freq, **kw)
            with np.errstate(divide='ignore'):
                wanted = [((), one([(1 / freq, eigs[:, k].real) for k in range(m)]))]
        elif what == 'coeffs':
            sel = list(dict.fromkeys(k % n for k in c['sel']))
            post.plot_coeffs(eigs, coeffs_idx=sel, equal_axes=c['axes'], **kw)
            wanted = [((rf'(?<!\d){k}',), one([(np.arange(m), eigs[k].real)])) for k in sel]
        elif what == 'compare':
            post.plot_compare_time_series(a, b, label1='one', label2='two', **kw)
            wanted = [((), one([(np.arange(n), a), (np.arange(m + 3), b)]))]
        elif what == 'history':
            post.plot_training_histories(list(a), list(b), **kw)
            wanted = [((), one([(np.arange(n), a), (np.arange(m + 3), b)]))]
        else:
            vs = [rng.standard_normal((n, m + 1)) for _ in range(1 + c['seed'] % 3)]
            post.generate_2d_subplot(*[q for k, v in enumerate(vs) for q in (v, f't{k}')], **kw)

            def judge(g):
                require(len(g.axes) == len(vs), lambda: f'{len(g.axes)} panels for {len(vs)} fields')
                for k, (ax, v) in enumerate(zip(g.axes, vs)):
                    judge_contour(ax, np.arange(m + 1), np.arange(n), v, f'field {k}')
                    require(ax['title'] == f't{k}', lambda: f'field {k} titled {ax["title"]}')
            wanted = [((), judge)]
    match(rec.figs, wanted, what, saved)
    unchanged(before, given, what)
    ctx.nontrivial()


@st.composite
def casesmodel(draw):
    c = draw(gen.spod_cases(max_nt=40, n_dft_max=8, max_points=40, ndims=(1, 2, 2, 2, 3), min_axis=2, dtypes=('double',)))
    c['plots'] = draw(st.lists(st.sampled_from(['2d', '3d', 'tracers', 'data', 'dtracers', 'eigs', 'freq', 'period', 'report',
                                                'video']), min_size=1, max_size=4))
    c.update({k: draw(v) for k, v in OPT.items() if k not in ('seed', 'nv', 'nf', 'layout', 'nm')})
    c['times'] = draw(st.lists(st.integers(-9, 9), min_size=1, max_size=3))
    c['limits'] = sorted(draw(st.lists(st.integers(0, 12), min_size=2, max_size=2, unique=True)))
    c['pt'] = draw(st.integers(0, 200))
    c['imaginary'] = draw(st.booleans())
    c['shift180'] = draw(st.booleans())
    c['slice_dim'] = draw(st.integers(0, 2))
    c['sampling'] = draw(st.integers(1, 2))
    c['coast'] = ''
    c['tone'] = draw(st.integers(0, 6))
    return c


def model(c, ctx):
    d = ctx.dir()
    raw = gen.make_data(c)
    x = gen.full_data(c)
    if 'report' in c['plots'] and c['tone']:
        # a frequency that stands out
        t = np.arange(c['nt']).reshape((-1,) + (1,) * (x.ndim - 1))
        w = 1e3 * np.abs(x).max() * np.cos(2 * np.pi * t * (1 + c['tone'] % max(1, c['n_dft'] // 2)) / c['n_dft'])
        x, raw = x + w, np.asarray(raw) + w.reshape((-1,) + (1,) * (np.ndim(raw) - 1))
    s = drive.standard(c, d, data=raw.copy())
    rdir = s.savedir_sim
    xs = tuple(c['xshape'])
    eigs, freq = np.array(s.eigs), np.array(s.freq)
    nf, nm = len(freq), int(s.n_modes_save)
    rng = np.random.RandomState(c['seed'])
    X = [axis(rng, n, 'asc') for n in xs]
    vs, ms = pick(c, c['vars'], c['nv']), pick(c, c['modes'], nm)
    f = c['f'] % nf
    fr = float(freq[f])
    M = np.load(os.path.join(rdir, 'modes', f'freq_idx_{f:08d}.npy'))
    fn = c['fname'] if c['save'] else None
    saved = (rdir, c['fname']) if c['save'] else None
    pt = np.unravel_index(c['pt'] % int(np.prod(xs)), xs)
    at = tuple(float(a[i]) for a, i in zip(X, pt))
    before = {k: v for k, v in drive.snapshot_tree(rdir).items()}
    held = frozen(raw, *X)
    done = 0
    import matplotlib
    for what in c['plots']:
        wanted, sv = [], saved
        if what in ('2d', 'data', 'report', 'video') and len(xs) != 2 or what == '3d' and len(xs) != 3:
            continue
        if what == 'tracers' and freq[f] == 0:
            continue
        ctx.label('model ' + what)
        done += 1
        if what == 'video':
            t0, t1 = c['limits']
            t1 = min(t1, c['nt'])
            if t0 >= t1:
                continue
            frames_of(c, ctx, None, x, None, None, X[1], X[0], [False], vs, rdir, t0=t0, t1=t1,
                      call=lambda: lean(c, s.generate_2d_data_video, raw, time_limits=[t0, t1], vars_idx=vs, x1=X[1], x2=X[0],
                                                            sampling=c['sampling'], filename='m.mp4'))
            continue
        with record() as rec:
            if what == '2d':
                lean(c, s.plot_2d_modes_at_frequency, freq_req=fr, freq=freq, vars_idx=vs, modes_idx=ms, x1=X[1], x2=X[0],
                                             imaginary=c['imaginary'], shift180=c['shift180'], filename=fn)
            elif what == '3d':
                lean(c, s.plot_3d_modes_slice_at_frequency, freq_req=fr, freq=freq, vars_idx=vs, modes_idx=ms, x1=X[0], x2=X[1],
                                                   x3=X[2], slice_dim=c['slice_dim'], slice_id=1,
                                                   imaginary=c['imaginary'], filename=fn)
            elif what == 'tracers':
                lean(c, s.plot_mode_tracers, freq_req=fr, freq=freq, coords_list=[at], x=X, vars_idx=vs, modes_idx=ms, filename=fn)
            elif what == 'data':
                ts = list(dict.fromkeys(max(-c['nt'], min(t, c['nt'] - 1)) for t in c['times']))
                lean(c, s.plot_2d_data, raw, time_idx=ts, vars_idx=vs, x1=X[1], x2=X[0], filename=fn)
            elif what == 'dtracers':
                t0, t1 = c['limits']
                if t0 >= c['nt']:
                    continue
                lean(c, s.plot_data_tracers, raw, coords_list=[at], x=X, time_limits=[t0, t1], vars_idx=vs, filename=fn)
            elif what == 'eigs':
                s.plot_eigs(filename=fn)
            elif what == 'freq':
                s.plot_eigs_vs_frequency(filename=fn)
            elif what == 'period':
                s.plot_eigs_vs_period(filename=fn)
            else:
                if np.any(freq < 0):
                    continue
                s.plot_report(X[1], X[0], path=d, filename='r.pdf', shift180=c['shift180'])
        sh = (lambda z: np.concatenate([z[:, z.shape[1] // 2:], z[:, :z.shape[1] // 2]], axis=1)) if c['shift180'] \
            else (lambda z: z)
        lon = (X[1] - 180 if c['shift180'] else X[1]) if len(xs) == 2 else None
        if what == '2d':
            for v in lst(vs):
                for m in lst(ms):
                    def judge(g, v=v, m=m):
                        z = sh(M[:, :, v, m])
                        require(len(g.axes) == (2 if c['imaginary'] else 1), lambda: f'{len(g.axes)} panels')
                        for a, p in zip(g.axes, (z.real, z.imag)):
                            judge_contour(a, lon, X[0], p, f'model: mode {m} of variable {v} at frequency index {f}')
                    wanted.append(((f'var{v}', f'mode{m}'), judge))
        elif what == '3d':
            rest = [k for k in range(3) if k != c['slice_dim']]
            for v in lst(vs):
                for m in lst(ms):
                    def judge(g, v=v, m=m):
                        z = np.take(M[..., v, m], 1, axis=c['slice_dim']).T
                        for a, p in zip(g.axes, (z.real, z.imag)):
                            judge_contour(a, X[rest[0]], X[rest[1]], p, f'model: slice of mode {m} of variable {v}')
                    wanted.append(((f'var{v}', f'mode{m}'), judge))
        elif what == 'tracers':
            for v in lst(vs):
                def judge(g, v=v):
                    require(len(g.axes) == len(lst(ms)), lambda: f'{len(g.axes)} panels for modes {ms}')
                    for a, m in zip(g.axes, lst(ms)):
                        q = M[pt + (v, m)] * np.exp(-1j * np.linspace(0, 10 * np.pi, 100))
                        same(a['lines'][0][1], q.real, f'model: tracer of mode {m} of variable {v}')
                wanted.append(((f'var{v}',), judge))
        elif what == 'data':
            for v in lst(vs):
                for t in ts:
                    wanted.append(((f'var{v}', f'time{t}'), lambda g, v=v, t=t: judge_contour(
                        g.axes[0], X[1], X[0], x[t, :, :, v].real, f'model: data of variable {v} at time {t}')))
        elif what == 'dtracers':
            t1 = min(t1, c['nt'])
            for v in lst(vs):
                def judge(g, v=v):
                    w = f'model: data of variable {v} at {pt}, times {t0} to {t1 - 1}'
                    l = g.axes[0]['lines'][0]
                    same(l[1], x[(slice(t0, t1),) + pt + (v,)].real, w)
                    same(l[0], np.arange(t0, t1), w)
                wanted.append(((f'var{v}',), judge))
        elif what == 'report':
            report(rec.figs, freq, eigs, rdir, sh, lon, X[0])
            continue
        else:
            def judge(g):
                ls = g.axes[0]['lines']
                e = eigs if what != 'eigs' else eigs.reshape(nf, -1)
                require(len(ls) == e.shape[1], lambda: f'{what}: {len(ls)} lines for {e.shape[1]} modes')
                with np.errstate(divide='ignore'):
                    ab = dict(eigs=None, freq=freq, period=1 / freq)[what]
                for k, l in enumerate(ls):
                    same(l[0], e[:, k].real if ab is None else ab, f'{what}: abscissae')
                    same(l[1], e[:, k].imag if ab is None else e[:, k].real, f'{what}: mode {k}')
            wanted = [((), judge)]
        match(rec.figs, wanted, 'model ' + what, sv)
    if not done:
        raise Skip('no plot of these applies')
    unchanged(held, [raw] + X, 'plots of a model')
    after = drive.snapshot_tree(rdir)
    for k in before:
        require(after.get(k) == before[k], lambda: f'plotting changed {k}')
    ctx.nontrivial()


def alike(g, h, what):
    require(len(g.axes) == len(h.axes), lambda: f'{what}: {len(g.axes)} panels, {len(h.axes)} of the function')
    require(g.titles == h.titles, lambda: f'{what}: titled {g.titles}, {h.titles} by the function')
    require(g.size == h.size, lambda: f'{what}: size {g.size}, {h.size} by the function')
    require((g.target is None) == (h.target is None) and
            (g.target is None or os.path.basename(g.target) == os.path.basename(h.target)),
            lambda: f'{what}: saved in {g.target}, {h.target} by the function')
    for a, b in zip(g.axes, h.axes):
        require(len(a['contours']) == len(b['contours']) and len(a['lines']) == len(b['lines']) and
                len(a['scatter']) == len(b['scatter']), lambda: f'{what}: not the contours, lines and points of the function')
        for k in ('contours', 'lines'):
            for u, v in zip(a[k], b[k]):
                for q, r in zip(u, v):
                    same(q, r, f'{what}: {k}')
        for k in ('scatter', 'ticks', 'limits'):
            for q, r in zip(a[k], b[k]):
                same(q, r, f'{what}: {k}')
        for k in ('xlabel', 'ylabel', 'title', 'aspect', 'scales'):
            require(a[k] == b[k], lambda: f'{what}: {k} {a[k]!r}, {b[k]!r} by the function')


@st.composite
def casesopts(draw):
    c = draw(casesmodel())
    for k in ('fftshift', 'plot_max', 'equal_axes', 'show_axes', 'xt', 'yt', 'ownfreq', 'drop'):
        c[k] = draw(st.booleans())
    c['figsize'] = draw(st.sampled_from([(12, 8), (6, 4), (5, 7)]))
    c['slice_id'] = draw(st.one_of(st.none(), st.integers(0, 6)))
    c['coast'] = draw(st.sampled_from(['', '', 'regular', 'Centred']))
    c['what'] = draw(st.sampled_from(['2d', '2d', '3d', '3d', 'tracers', 'data', 'dtracers', 'eigs', 'freq', 'period']))
    nd = dict([('2d', 2), ('3d', 3), ('data', 2)]).get(c['what'])
    if nd:
        c['xshape'] = [draw(st.integers(2, 4)) for _ in range(nd)]
    return c


def options(c, ctx):
    """a method of a model takes the options of the function it stands for, and draws what that one draws"""
    import pyspod.utils.postproc as post
    what, xs = c['what'], tuple(c['xshape'])
    d = ctx.dir()
    raw = gen.make_data(c)
    s = drive.standard(c, d, data=raw.copy())
    rdir = s.savedir_sim
    x = gen.full_data(c)
    freq, eigs = np.array(s.freq), np.array(s.eigs)
    rng = np.random.RandomState(c['seed'])
    X = [axis(rng, n, 'asc') for n in xs]
    vs, ms = pick(c, c['vars'], c['nv']), pick(c, c['modes'], int(s.n_modes_save))
    fr = requested(freq, c)
    at = [tuple(float(a[(c['pt'] + k) % len(a)]) for a in X) for k in range(1 + c['pt'] % 2)]
    kw = dict(title=c['title'], figsize=c['figsize'], filename=c['fname'] if c['save'] else None)
    tk = dict(xticks=[0.1, 0.5, 2.0] if c['xt'] else None, yticks=[0.25, 1.5] if c['yt'] else None)
    sel = dict(vars_idx=vs, modes_idx=ms)
    pos = ()
    if what in ('2d', '3d', 'tracers'):
        pos = dict(freq_req=fr, freq=freq)
        kw.update(sel, fftshift=c['fftshift'])
        if what == 'tracers':
            if fr == 0:
                raise Skip('no period')
            kw.update(coords_list=at, x=X)
        else:
            kw.update(tk, imaginary=c['imaginary'], plot_max=c['plot_max'], coastlines=c['coast'], equal_axes=c['equal_axes'])
            if what == '2d':
                kw.update(x1=X[1], x2=X[0], shift180=c['shift180'])
            else:
                sid = None if c['slice_id'] is None else c['slice_id'] % xs[c['slice_dim']]
                kw.update(dict(zip(('x1', 'x2', 'x3'), X)), slice_dim=c['slice_dim'], slice_id=sid)
        name = dict([('2d', 'plot_2d_modes_at_frequency'), ('3d', 'plot_3d_modes_slice_at_frequency'),
                     ('tracers', 'plot_mode_tracers')])[what]
        mine, theirs = dict(pos), dict(pos, results_path=rdir)
    elif what in ('data', 'dtracers'):
        kw.update(vars_idx=vs)
        if what == 'data':
            ts = list(dict.fromkeys(max(-c['nt'], min(t, c['nt'] - 1)) for t in c['times']))
            kw.update(time_idx=ts, x1=X[1], x2=X[0], coastlines=c['coast'])
        else:
            if c['limits'][0] >= c['nt']:
                raise Skip('no such times')
            kw.update(coords_list=at, x=X, time_limits=list(c['limits']))
        name = 'plot_2d_data' if what == 'data' else 'plot_data_tracers'
        mine, theirs = dict(data=raw), dict(X=x)
    else:
        kw.update(show_axes=c['show_axes'])
        # equal axes are nothing for logarithmic ones
        mine, theirs = {}, dict(eigs=eigs)
        if what == 'eigs':
            kw.update(equal_axes=c['equal_axes'])
            name = 'plot_eigs'
        else:
            kw.update(tk)
            theirs['freq'] = freq
            if c['ownfreq']:
                mine['freq'] = theirs['freq'] = freq * 3
            name = 'plot_eigs_vs_frequency' if what == 'freq' else 'plot_eigs_vs_period'
    ctx.label(what)
    with record() as rec:
        lean(c, getattr(s, name), **mine, **kw)
    with record() as ref:
        getattr(post, name)(**theirs, **kw, path=rdir)
    require(len(rec.figs) == len(ref.figs) > 0, lambda: f'{name}: {len(rec.figs)} figures, {len(ref.figs)} of the function')
    for g, h in zip(rec.figs, ref.figs):
        alike(g, h, name + ' of a model')
    ctx.nontrivial()


def report(figs, freq, eigs, rdir, sh, lon, y):
    """a peak marked on the spectrum, then, if its mode was stored, the leading variable of that mode at its frequency"""
    n = 0
    marked = set()
    while n < len(figs):
        a = figs[n]
        n += 1
        ls = a.axes[0]['lines']
        require(len(ls) == eigs.shape[1] + 1, lambda: f'report: {len(ls)} lines for {eigs.shape[1]} modes and a peak')
        for k in range(eigs.shape[1]):
            same(ls[k][0], freq[1:], 'report: frequencies')
            same(ls[k][1], eigs[1:, k], f'report: eigenvalues of mode {k}')
        px, py = ls[-1][0][0], ls[-1][1][0]
        f = int(np.argmin(np.abs(freq - px)))
        require(freq[f] == px and py in eigs[f], lambda: f'report: peak marked at ({px}, {py}), not on the spectrum')
        marked.add((f, float(py)))
        t = re.search(r'([\d.]+) (minutes|hours|days|months|years)', a.axes[0]['title'])
        if t:
            v = float(t.group(1))
            u = dict(minutes=1 / 60, hours=1, days=24, months=24 * 30.437, years=24 * 365.25)[t.group(2)]
            require(abs(v * u - 1 / freq[f]) <= 0.02 * u + 1e-2 / freq[f], lambda: f'report: peak at period '
                    f'{1 / freq[f]:.5g} hours titled {a.axes[0]["title"]!r}')
        t = re.search(r'mode (\d+)', a.axes[0]['title'])
        ks = [k for k in range(eigs.shape[1]) if eigs[f, k] == py]
        if t:
            require(int(t.group(1)) in ks, lambda: f'report: peak of mode {ks} titled {a.axes[0]["title"]!r}')
            ks = [int(t.group(1))]
        m = np.load(os.path.join(rdir, 'modes', f'freq_idx_{f:08d}.npy'))
        stored = [k for k in ks if k < m.shape[-1]]
        spectrum = n >= len(figs) or bool(figs[n].axes[0]['lines'])
        if not stored or (spectrum and len(stored) < len(ks)):
            continue
        require(not spectrum, lambda: f'report: no page for mode {stored[0]} at frequency index {f}')
        b = figs[n]
        n += 1
        errs = []
        for k in stored:
            try:
                judge_contour(b.axes[0], lon, y, sh(m[:, :, 0, k]).real, f'report: mode {k} at frequency index {f}')
                break
            except Violation as e:
                errs.append(e)
        else:
            raise errs[0]
    for k in range(eigs.shape[1] if len(freq) > 2 else 0):
        e = eigs[1:, k].real
        f = 1 + int(np.argmax(e))
        if np.all(np.delete(e, f - 1) * 4 < e[f - 1]):
            require((f, float(e[f - 1])) in marked, lambda: f'report: the peak of mode {k} at {freq[f]:.5g}, over four times '
                    f'everything else, is not in it')


def probe_slice_vs_time(ctx):
    c = dict(seed=1, n_dft=4, overlap=0, nt=12, nv=1, xshape=[3, 4], squeeze=True, kind='noise', dt=1.0, conf_level=0.95,
             mean_type='longtime', n_modes_save=3, fullspectrum=False, normalize_weights=False, normalize_data=False)
    s = drive.standard(c, ctx.dir())
    with record() as rec:
        try:
            s.plot_2d_mode_slice_vs_time(freq_req=0.25, freq=s.freq)
        except AttributeError as e:
            fail(f'plot_2d_mode_slice_vs_time: AttributeError: {e}')
    require(len(rec.figs) > 0, lambda: 'plot_2d_mode_slice_vs_time drew nothing')


SUBS = [
    Sub('modes2d', cases2d, modes2d, quick=200, thorough=3000, min_nontrivial=20),
    Sub('modes3d', cases3d, modes3d, quick=100, thorough=1500, min_nontrivial=20),
    Sub('tracers', casestr, tracers, quick=180, thorough=2000, min_nontrivial=20),
    Sub('data2d', casesdata, data2d, quick=120, thorough=2000, min_nontrivial=15),
    Sub('lines', caseslines, lines, quick=120, thorough=1500, min_nontrivial=20),
    Sub('model', casesmodel, model, quick=130, thorough=1200, min_nontrivial=10),
    Sub('options', casesopts, options, quick=150, thorough=1500, min_nontrivial=20),
]
PROBES = [Probe('slice-vs-time', 'SPOD.plot_2d_mode_slice_vs_time calls a plotting function that does not exist', probe_slice_vs_time)]
