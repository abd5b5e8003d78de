"""C19: nearest frequency and nearest point searches are exact."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, drive, core
from pbt.core import Sub, close, require, equal

PROPERTY = 'C19'
RULE = ('random, sorted, unsorted, repeated and two-sided frequency axes; grids of one to four dimensions with random, '
        'descending, repeated or integer coordinates; requests on, between, near and outside the points; through the '
        'functions and the methods of a fitted model, with exhaustive search as the oracle; non-trivial = at least two '
        'different candidates')
ASSUMPTIONS = ['coordinates and requests are finite']


@st.composite
def axis(draw, n=None):
    n = n or draw(gen.tail(1, 12, 500))
    k = draw(st.sampled_from(['random', 'linspace', 'descending', 'ints', 'repeated', 'fft', 'tiny', 'geo']))
    rng = np.random.RandomState(draw(st.integers(0, 9999)))
    a = rng.uniform(-3, 3, n)
    if k == 'linspace':
        a = np.linspace(0, draw(st.sampled_from([1.0, 0.5, 360.0])), n)
    elif k == 'descending':
        a = np.sort(a)[::-1]
    elif k == 'ints':
        return [int(v) for v in rng.randint(-9, 9, n)]
    elif k == 'repeated':
        a = np.round(a)
    elif k == 'fft':
        a = np.fft.fftfreq(n, 0.1)
    elif k == 'tiny':
        a = a * 1e-12
    elif k == 'geo':
        a = np.linspace(-90, 90, n)
    return [float(v) for v in a]


@st.composite
def request(draw, ax):
    k = draw(st.sampled_from(['on', 'near', 'between', 'out', 'any', 'mid']))
    v = ax[draw(st.integers(0, len(ax) - 1))]
    if k == 'on':
        return v
    if k == 'near':
        return v + draw(st.sampled_from([1e-9, -1e-9, 1e-3, -1e-3]))
    if k == 'mid':
        return 0.5 * (v + ax[draw(st.integers(0, len(ax) - 1))])
    if k == 'between':
        return v + draw(st.floats(-1, 1))
    if k == 'out':
        return draw(st.sampled_from([-1e6, 1e6, 50.0]))
    return draw(st.floats(-4, 4))


@st.composite
def freqs(draw):
    a = draw(axis())
    return dict(freq=a, req=draw(request(a)), form=draw(st.sampled_from(['array', 'list', 'tuple', 'int array'])))


def nearest(ax, v):
    d = np.abs(np.asarray(ax) - v)
    return d.min(), d


def judge(ax, v, val, idx, what):
    best, d = nearest(ax, v)
    require(np.ndim(idx) == 0 and 0 <= int(idx) < len(ax), lambda: f'{what}: index {idx!r} of {len(ax)}')
    require(float(ax[int(idx)]) == float(val), lambda:   # (in double precision, whatever is returned)
            f'{what}: index {idx} holds {ax[int(idx)]!r}, returned {val!r}')
    require(d[int(idx)] <= best * (1 + 1e-12) + 1e-15 * abs(v), lambda: f'{what}: {val!r} at distance {d[int(idx)]!r} of {v!r}, but {np.asarray(ax)[d.argmin()]!r} '
            f'is at {best!r}')


def freq(c, ctx):
    import pyspod.utils.postproc as post
    a = c['freq']
    arg = dict(array=np.array(a), list=list(a), tuple=tuple(a))['array' if c['form'] == 'int array' else c['form']]
    if c['form'] == 'int array':
        a = [int(round(v)) for v in a]
        arg = np.array(a)
    val, idx = post.find_nearest_freq(freq_req=c['req'], freq=arg)
    judge(a, c['req'], val, idx, f'request {c["req"]!r}')
    if isinstance(arg, np.ndarray):
        equal(arg, np.array(a), 'frequencies after the search')
    ctx.label(c['form'])
    ctx.nontrivial(len(set(a)) > 1)


@st.composite
def grids(draw):
    nd = draw(st.integers(1, 4))
    far = draw(st.integers(0, nd - 1))
    x = [draw(axis(draw(gen.tail(1, 6, 150) if i == far else st.integers(1, 6)))) for i in range(nd)]
    return dict(x=x, coords=[draw(request(a)) for a in x], arr=draw(st.booleans()), tup=draw(st.booleans()),
                wrong=draw(st.integers(0, 5)) == 0)


def point(c, ctx):
    import pyspod.utils.postproc as post
    x = [np.array(a) for a in c['x']] if c['arr'] else [list(a) for a in c['x']]
    shape = tuple(len(a) for a in c['x'])
    coords = tuple(c['coords']) if c['tup'] else list(c['coords'])
    if c['wrong']:
        core.raises(ValueError, lambda: post.find_nearest_coords(coords, x, shape + (2,)), 'grid of another shape than the data')
        core.raises(TypeError, lambda: post.find_nearest_coords(coords, tuple(x), shape), 'coordinates that are no list')
    xi, idx = post.find_nearest_coords(coords, x, shape)
    require(len(xi) == len(shape) and len(idx) == len(shape), lambda: f'point {xi}, index {idx} for {len(shape)} dimensions')
    for k, a in enumerate(c['x']):
        judge(a, c['coords'][k], xi[k], idx[k], f'dimension {k}, request {c["coords"]}')
    # it is the closest of all points of the grid
    g = np.stack(np.meshgrid(*[np.array(a, float) for a in c['x']], indexing='ij'))
    d = np.sqrt(sum((g[k] - c['coords'][k]) ** 2 for k in range(len(shape))))
    require(d[tuple(int(i) for i in idx)] <= d.min() * (1 + 1e-12) + 1e-300, lambda: f'point {xi} is not the closest one')
    ctx.label(f'{len(shape)}D')
    ctx.nontrivial(g[0].size > 1 and len(shape) > 1)


@st.composite
def models(draw):
    c = draw(gen.spod_cases(dtypes=('double',), f32_ok=False, max_nt=40, n_dft_max=12, max_points=12, normalize_data_ok=False,
                            weights=('none',)))
    c['normalize_weights'] = False
    c['frac'] = draw(st.floats(-0.3, 1.3))
    c['x'] = [draw(axis(n)) for n in c['xshape']]
    c['coords'] = [draw(request(a)) for a in c['x']]
    a = draw(axis())
    c['freq'], c['req'] = a, draw(request(a))
    c['how'] = draw(st.sampled_from(['default', 'default', 'array', 'list', 'tuple']))
    return c


def model(c, ctx):
    s = drive.standard(c, ctx.dir())
    f = np.asarray(s.freq)
    if c['how'] == 'default':
        v = float(f.min() + c['frac'] * (f.max() - f.min()))
        val, idx = s.find_nearest_freq(freq_req=v)
        judge(list(f), v, val, idx, f'model, request {v!r}')
    else:
        arg = dict(array=np.array(c['freq']), list=c['freq'], tuple=tuple(c['freq']))[c['how']]
        val, idx = s.find_nearest_freq(freq_req=c['req'], freq=arg)
        judge(c['freq'], c['req'], val, idx, f'model, given frequencies, request {c["req"]!r}')
    xi, idx = s.find_nearest_coords(c['coords'], [np.array(a) for a in c['x']])
    for k, a in enumerate(c['x']):
        judge(a, c['coords'][k], xi[k], idx[k], f'model, dimension {k}, request {c["coords"]}')
    ctx.label(c['how'], f'{len(c["xshape"])}D')
    ctx.nontrivial(len(f) > 1)


SUBS = [Sub('frequencies', freqs, freq, quick=1500, thorough=20000), Sub('points', grids, point, quick=1500, thorough=20000),
        Sub('models', models, model, quick=200, thorough=3000)]
