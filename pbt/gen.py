"""Generators of data, weights and SPOD configurations. A case is a JSON dict; arrays are pure functions
of it (numpy RandomState of a drawn integer), so a case replays bit for bit anywhere, on any MPI rank."""
import numpy as np
from hypothesis import strategies as st

DT = [1.0, 0.1, 0.25, 3.0, 12.0, 0.007, 86400.0, 2e-6]


def make_data(c):
    """(nt, *xshape[, nv]) array described by c: seed, kind, nt, xshape, nv, squeeze, amp, offset, complex, f32."""
    rng = np.random.RandomState(c['seed'])
    nt, xs, nv = c['nt'], tuple(c['xshape']), c['nv']
    full = (nt,) + xs + (nv,)
    kind = c.get('kind', 'noise')
    cplx = c.get('complex', False)

    def one():
        x = rng.standard_normal(full)
        if kind == 'waves':
            t = np.arange(nt)
            y = 0.05 * x
            n = int(np.prod(xs)) * nv
            for k in range(4):
                f = rng.uniform(0.02, 0.5)
                a = rng.standard_normal(n); b = rng.standard_normal(n)
                am = 1 + 0.7 * np.sin(2 * np.pi * rng.uniform(0.003, 0.05) * t + rng.uniform(0, 6))
                y = y + (np.outer(am * np.cos(2 * np.pi * f * t), a)
                         + np.outer(am * np.sin(2 * np.pi * f * t), b)).reshape(full) / (k + 1)
            x = y
        elif kind == 'trend':
            t = np.linspace(-1, 1, nt)
            n = int(np.prod(xs)) * nv
            x = 0.3 * x + np.outer(t, rng.standard_normal(n)).reshape(full) \
                + np.outer(t ** 2, rng.standard_normal(n)).reshape(full)
        elif kind == 'ints':
            x = rng.randint(-3, 4, size=full).astype(float)
        elif kind == 'near':
            # almost one shape at all times: modes of different frequencies depend on one another, almost
            n = int(np.prod(xs)) * nv
            x = np.outer(rng.standard_normal(nt), rng.standard_normal(n)).reshape(full) + c['near'] * x
        elif kind == 'spiky':
            x = x * (rng.uniform(size=full) < 0.2) * rng.choice([1.0, 30.0], size=full) + 0.01 * x
        return x
    x = one() + 1j * one() if cplx else one()
    if cplx and c.get('reals'):
        # complex in a part of the record only
        im = x.imag.copy()
        im[dict(first=slice(0, nt // 2), last=slice((nt + 1) // 2, nt), one=slice(0, nt))[c['reals']]] = 0
        if not im.any():
            im[(nt // 3,) + tuple(n - 1 for n in full[1:])] = 1.0
        x = x.real + 1j * im
    off = c.get('offset', 0.0)
    if off:
        x = x + off * (1 + rng.uniform(size=(1,) + xs + (nv,)))
    x = x * c.get('amp', 1.0)
    if nv > 1 and c.get('vscale', False):
        x = x * (10.0 ** (np.arange(nv) % 3))
    if c.get('squeeze', False) and nv == 1:
        x = x[..., 0]
    if c.get('f32', False):
        x = x.astype(np.complex64 if cplx else np.float32)
    return x


STORED = ('f4', 'f2', 'i2', 'u1', '>f8', '>f4')


def store(x, kind):
    """x in another representation, as it may come from a file: (what is handed in, its values in double)"""
    if kind is None:
        return x, x
    if np.iscomplexobj(x):
        kind = dict(f4='c8', f2='c8', i2='c16', u1='c8').get(kind, kind.replace('f8', 'c16').replace('f4', 'c8'))
    elif kind in ('i2', 'u1'):
        x = np.round((x - x.min()) / max(np.ptp(x), 1e-300) * (250 if kind == 'u1' else 30000)) - (0 if kind == 'u1' else 9000)
    if kind == 'f2' and not 1e-2 < np.abs(x).max() < 1e4:
        kind = 'f4'                    # beyond the range of half precision
    y = x.astype(kind)
    return y, y.astype(np.complex128 if np.iscomplexobj(x) else np.float64)


def full_data(c):
    """the same with the variable axis always present, in double"""
    x = make_data(dict(c, squeeze=False))
    return x.astype(np.complex128 if c.get('complex') else np.float64)


def make_weights(c):
    """weights dict as the package takes it (None = default), from c['w']"""
    w = c.get('w', 'none')
    if w == 'none':
        return None
    shape = tuple(c['xshape']) + (c['nv'],)
    rng = np.random.RandomState(c['seed'] + 77)
    if w == 'ones':
        a = np.ones(shape)
    elif w == 'rand':
        a = rng.uniform(0.1, 2.0, size=shape)
    elif w == 'wide':
        a = 10.0 ** rng.uniform(-3, 2, size=shape)
    elif w == 'pervar':
        a = np.ones(shape) * (1.0 + np.arange(c['nv']))
    elif w == 'ints':
        return dict(weights=rng.randint(1, 9, shape), weights_name=w)
    elif w == 'f4':
        a = rng.uniform(0.1, 2.0, size=shape).astype(np.float32)
    else:
        raise ValueError(w)
    if c.get('wscale'):
        a = a * c['wscale']
    return dict(weights=a, weights_name=w)


def full_weights(c):
    w = make_weights(c)
    if w is None:
        return np.ones(tuple(c['xshape']) + (c['nv'],))
    return w['weights'].reshape(tuple(c['xshape']) + (c['nv'],))


# values of parameters that may as well be left out
DEFAULTS = dict(overlap=0, mean_type='longtime', conf_level=0.95, reuse_blocks=False, savefft=False, fullspectrum=False,
                normalize_weights=False, normalize_data=False, dtype='double', savefreq_disk=True, savefreq_disk2=False)


def left_out(c, k):
    """parameters at their default are not passed at all in half of the cases"""
    if c.get('seed', 0) % 2 == 0:
        return False
    if k == 'n_modes_save':
        return 'n_dft' in c and n_overlap_of(c) < c['n_dft'] and c[k] >= n_blocks_of(c)
    return k in DEFAULTS and c[k] == DEFAULTS[k]


def params_of(c, savedir):
    p = dict(time_step=c['dt'], n_space_dims=len(c['xshape']), n_variables=c['nv'], n_dft=c['n_dft'])
    for k in ('overlap', 'mean_type', 'conf_level', 'reuse_blocks', 'savefft', 'fullspectrum',
              'normalize_weights', 'normalize_data', 'n_modes_save', 'dtype', 'savefreq_disk', 'savefreq_disk2'):
        if k in c and not left_out(c, k):
            p[k] = c[k]
    p['savedir'] = savedir
    return typed(p, c)


def typed(p, c):
    """the same parameters in other types: values as they come out of an array or a labelled data set, folder as a path"""
    how = c.get('ptypes')
    if how == 'numpy':
        kinds = {bool: np.bool_, int: np.int64, float: np.float64, str: np.str_}
        return {k: kinds[type(v)](v) if type(v) in kinds and k != 'savedir' else v for k, v in p.items()}
    if how == 'path':
        import pathlib
        return dict(p, savedir=pathlib.Path(p['savedir']))
    return p


def indices(i, c):
    """a list of indices in another form"""
    if i is None:
        return None
    k = (c['seed'] + len(i)) % 5
    if k == 0:
        return np.array(i)
    if k == 1:
        return list(np.array(i))
    if k == 2:
        return tuple(i)
    if k == 3 and i == list(range(i[0], i[0] + len(i))):
        return range(i[0], i[0] + len(i))
    return list(i)


def n_overlap_of(c):
    return int(np.ceil(c['n_dft'] * c.get('overlap', 0) / 100))


def n_blocks_of(c):
    no = n_overlap_of(c)
    return (c['nt'] - no) // (c['n_dft'] - no)


@st.composite
def tail(draw, lo, hi, far, odds=7):
    """mostly from lo..hi, now and then from beyond it up to far: thresholds, chunk sizes, digits of names"""
    return draw(st.integers(hi + 1, far)) if draw(st.integers(0, odds)) == odds else draw(st.integers(lo, hi))


LARGE = ('blocks', 'dft', 'points', 'vars')


PTYPES = (None, None, None, 'numpy', 'path')
NDIMS = (1, 1, 2, 2, 3, 3, 4)


# how many points a case needs so that the CSD of n_blocks realisations has full rank
@st.composite
def xshapes(draw, min_points=1, max_points=80, ndims=NDIMS, min_axis=1):
    nd = draw(st.sampled_from(list(ndims)))
    if nd == 1:
        return [draw(st.integers(max(min_points, min_axis), max(max_points, min_points, min_axis)))]
    shape = [draw(st.integers(min_axis, max(7 if nd < 4 else 4, min_axis))) for _ in range(nd)]
    k = draw(st.integers(0, nd - 1))
    while int(np.prod(shape)) < min_points:
        shape[k] += 1
    return shape


@st.composite
def spod_cases(draw, max_nt=120, ndims=NDIMS, complex_ok=True, f32_ok=True, dtypes=('double', 'double', 'single'),
               normalize_data_ok=True, min_axis=1, extra_points=2, max_points=60, nvs=(1, 1, 2, 3), min_blocks=2,
               weights=('none', 'rand', 'wide', 'pervar', 'ones', 'ints', 'f4'), kinds=('noise', 'waves', 'trend', 'ints', 'spiky'),
               n_dft_max=32, fullspectrum_ok=True, large=None):
    c = {}
    c['seed'] = draw(st.integers(0, 2 ** 20))
    # one dimension well beyond the rest: thresholds, digits of file names, chunk sizes
    big = draw(st.sampled_from(large)) if large else None
    if big:
        c['large'] = big
    c['n_dft'] = n = draw(st.integers(101, 420) if big == 'dft' else st.integers(4, 8 if big == 'blocks' else 5 if big == 'huge' else n_dft_max))
    c['overlap'] = draw(st.one_of(st.just(0), st.sampled_from([0, 10, 25, 50, 75]), st.integers(0, 80),
                                  st.floats(0, 80).map(lambda v: round(v, 2))))
    no = n_overlap_of(c)
    if no > n - 1:
        c['overlap'] = 0
        no = 0
    step = n - no
    nb = draw(st.integers(100, 270) if big == 'blocks' else st.integers(min_blocks, 9 if not big else 3 if big == 'huge' else 4))
    extra = draw(st.one_of(st.just(0), st.integers(0, max(step - 1, 0))))
    nt = no + nb * step + extra
    if nt > max_nt and not big:
        nb = max(min_blocks, (max_nt - no) // step)
        nt = no + nb * step + extra
    c['nt'] = nt
    c['nv'] = nv = draw(st.sampled_from(list(nvs))) if big != 'huge' else 1
    if big == 'vars':
        c['nv'] = nv = draw(st.integers(11, 40))
    need = -(-(n_blocks_of(c) + extra_points) // nv)
    if big == 'points':
        # now and then more points than a 16-bit number counts
        need = draw(st.integers(300, 3000)) if n > 10 or draw(st.integers(0, 5)) < 5 else draw(st.integers(33000, 150000))
        max_points = max(need + 1000, 3000) * nv
    elif big == 'huge':
        # more points for each of two processes than a 16-bit number counts
        need = draw(st.integers(132000, 150000))
        max_points = need + 1000
    elif big == 'blocks':
        max_points = max(max_points, draw(st.sampled_from([60, 400])))
    c['xshape'] = draw(xshapes(min_points=need, max_points=max(max_points // nv, need), ndims=ndims, min_axis=min_axis))
    c['squeeze'] = draw(st.booleans()) if nv == 1 else False
    c['kind'] = draw(st.sampled_from(list(kinds)))
    c['amp'] = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-3, 250.0, 1e-8, 1e7]))
    c['offset'] = draw(st.sampled_from([0.0, 0.0, 1.0, -20.0]))
    c['vscale'] = draw(st.booleans()) if nv > 1 else False
    c['complex'] = complex_ok and draw(st.integers(0, 4)) == 0
    if c['complex']:
        c['reals'] = draw(st.sampled_from([None, None, 'first', 'last', 'one']))
    c['f32'] = f32_ok and draw(st.integers(0, 5)) == 0
    c['dt'] = draw(st.sampled_from(DT))
    c['mean_type'] = draw(st.sampled_from(['longtime', 'blockwise', 'zero', 'Longtime', 'BLOCKWISE']))
    c['fullspectrum'] = fullspectrum_ok and draw(st.booleans())
    c['normalize_weights'] = draw(st.integers(0, 3)) == 0
    c['normalize_data'] = normalize_data_ok and draw(st.integers(0, 3)) == 0
    c['dtype'] = draw(st.sampled_from(list(dtypes)))
    c['w'] = draw(st.sampled_from(list(weights)))
    c['wscale'] = draw(st.sampled_from([None, None, None, 1e-9, 1e6])) if c['dtype'] == 'double' else None
    c['conf_level'] = draw(st.one_of(st.sampled_from([0.95, 0.95, 0.9, 0.99, 0.5]), st.floats(0.01, 0.999).map(lambda v: round(v, 3))))
    c['n_modes_save'] = draw(st.one_of(st.just(n_blocks_of(c)), st.integers(1, n_blocks_of(c) + 2)))
    c['ptypes'] = draw(st.sampled_from(PTYPES))
    return c
