"""C08: the way data and weights are handed in does not change the results."""
import os
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, drive, core
from pbt.core import Sub, close, require, equal
from pbt.checks.c02 import judge_modes, inconditioned

PROPERTY = 'C08'
RULE = ('random data sets cut into lists at random times (also single snapshots), stored as plain, transposed, strided, '
        'reversed, read-only, memory-mapped, big-endian, float32, integer or labelled arrays, with or without the trailing '
        'axis of a single variable, weights flattened, in the shape of the data or in odd layouts; fits are judged against '
        'the reference for the plain array, the reader against slices; non-trivial = at least one part is not a plain array, '
        'or the data are cut')
ASSUMPTIONS = ['numpy/LAPACK are trusted']

FORMS = ['plain', 'fortran', 'strided', 'reversed', 'readonly', 'memmap', 'bigendian', 'xarray', 'xarray_coords',
         'transposed', 'subclass', 'xarray_lazy']


@st.composite
def storage(draw, nt):
    k = min(nt - 1, draw(st.one_of(*[st.integers(0, 4)] * 5, st.integers(5, 20))))
    cuts = sorted(draw(st.lists(st.integers(1, nt - 1), min_size=k, max_size=k, unique=True))) if nt > 1 else []
    forms = draw(st.lists(st.sampled_from(FORMS), min_size=len(cuts) + 1, max_size=len(cuts) + 1))
    return dict(cuts=cuts, forms=forms, aslist=draw(st.booleans()) if not cuts else True)


@st.composite
def cases(draw, large=None):
    c = draw(gen.spod_cases(max_nt=60, n_dft_max=12, max_points=30, f32_ok=False, dtypes=('double', 'double', 'double', 'single'),
                            large=large))
    c['squeeze'] = False
    c['store'] = draw(storage(c['nt']))
    c['elem'] = draw(st.sampled_from(['f8', 'f8', 'f4', 'mixed', 'int']))
    if c['elem'] == 'int':
        c.update(kind='ints', amp=1.0, offset=0.0, vscale=False, complex=False)
    c['axis'] = draw(st.sampled_from(['keep', 'drop'])) if c['nv'] == 1 else 'keep'
    c['wform'] = draw(st.sampled_from(['full', 'flat', 'drop', 'fortran', 'readonly', 'bigendian', 'column']))
    c['latecomplex'] = draw(st.booleans())
    if c['wform'] == 'drop' and c['normalize_weights'] and len(c['xshape']) > 1:
        c['wform'] = 'full'      # recorded finding weights-noaxis
    return c


def probe_noaxis(ctx):
    c = dict(seed=5, n_dft=6, overlap=0, nt=24, nv=1, xshape=[3, 4], squeeze=True, kind='noise', dt=1.0, n_modes_save=2,
             mean_type='zero', normalize_weights=True, w='rand', wform='drop')
    full = drive.standard(c, ctx.dir())
    drop = drive.standard(c, ctx.dir(), weights=weights(c))
    close(np.asarray(drop.eigs), np.asarray(full.eigs), 'eigenvalues with weights in the shape of the data (no variable axis)')


def plain(c):
    """the data as one double array with the variable axis"""
    x = gen.full_data(c)
    if c['elem'] in ('f4', 'mixed'):
        x = x.astype(np.complex64 if c['complex'] else np.float32).astype(x.dtype)
    if c['elem'] == 'int':
        x = np.rint(x)
    if c['complex'] and c['latecomplex'] and c['store']['cuts']:
        x = x.copy()
        x[:c['store']['cuts'][-1]] = x[:c['store']['cuts'][-1]].real
    return x


def shape_part(a, form, ctx):
    if form == 'fortran':
        return np.asfortranarray(a)
    if form == 'strided':
        big = np.zeros((2 * len(a),) + a.shape[1:-1] + (3 * a.shape[-1],), dtype=a.dtype) + 99
        big[::2, ..., ::3] = a
        return big[::2, ..., ::3]
    if form == 'reversed':
        return a[::-1].copy()[::-1]
    if form == 'transposed':
        return np.moveaxis(np.ascontiguousarray(np.moveaxis(a, 0, -1)), -1, 0)
    if form == 'readonly':
        b = a.copy()
        b.flags.writeable = False
        return b
    if form == 'memmap':
        f = os.path.join(ctx.dir(), 'd.npy')
        np.save(f, a)
        return np.load(f, mmap_mode='r')
    if form == 'bigendian':
        return a.astype(a.dtype.newbyteorder('>'))
    if form == 'subclass':
        return a.copy().view(Sub_)
    if form in ('xarray', 'xarray_coords', 'xarray_lazy'):
        import xarray as xr
        if form == 'xarray_lazy' and a.dtype.kind != 'c':
            # an array of an opened netCDF file, loaded when used
            f = os.path.join(ctx.dir(), 'd.nc')
            xr.Dataset({'q': (['time'] + [f'd{i}' for i in range(1, a.ndim)], a)}).to_netcdf(f)
            return xr.open_dataset(f)['q']
        if form == 'xarray_coords':
            return xr.DataArray(a, dims=['time'] + [f'd{i}' for i in range(1, a.ndim)],
                                coords={'time': np.arange(len(a)) * 0.5 + 3})
        return xr.DataArray(a)
    return a


class Sub_(np.ndarray):
    pass


def parts(c, x, ctx):
    b = [0] + c['store']['cuts'] + [len(x)]
    out = []
    for i, (lo, hi) in enumerate(zip(b, b[1:])):
        a = x[lo:hi].copy()
        if c['elem'] == 'f4' or (c['elem'] == 'mixed' and i % 2):
            a = a.astype(np.complex64 if a.dtype.kind == 'c' else np.float32)
        if c['elem'] == 'int':
            a = a.astype([np.int64, np.int16, np.int32][i % 3])
        if c['complex'] and c['latecomplex'] and hi <= (c['store']['cuts'] or [0])[-1]:
            a = np.ascontiguousarray(a.real)
        if c['axis'] == 'drop':
            a = a[..., 0]
        out.append(shape_part(a, c['store']['forms'][i], ctx))
    return out if c['store']['aslist'] else out[0]


def weights(c):
    w = gen.make_weights(c)
    if w is None:
        return None
    a = w['weights']
    f = c['wform']
    if f == 'flat':
        a = a.ravel()
    elif f == 'drop' and c['nv'] == 1:
        a = a[..., 0]
    elif f == 'fortran':
        a = np.asfortranarray(a)
    elif f == 'readonly':
        a = a.copy()
        a.flags.writeable = False
    elif f == 'bigendian':
        a = a.astype('>f8')
    return dict(w, weights=a)


def lab(c, ctx):
    ctx.label('elem=' + c['elem'], 'axis=' + c['axis'], f'parts={len(c["store"]["cuts"]) + 1}', 'weights=' + c['wform'],
              *['form=' + f for f in set(c['store']['forms'])])
    ctx.nontrivial(bool(c['store']['cuts']) or c['store']['forms'] != ['plain'] or c['elem'] != 'f8'
                   or c['axis'] == 'drop' or (c['w'] != 'none' and c['wform'] != 'full'))


def fit(c, ctx):
    x = plain(c)
    cr = dict(c)
    if c['complex'] and c['latecomplex'] and c['store']['cuts'] and np.all(x.imag == 0):
        raise core.Skip
    if inconditioned(c):
        raise core.Skip
    lab(c, ctx)
    s = drive.standard(c, ctx.dir(), data=parts(c, x, ctx), weights=weights(c))
    if c['dtype'] == 'single':
        x = x.astype(np.complex64 if c['complex'] else np.float32).astype(x.dtype)
    if c['normalize_weights'] and np.any(np.var(x.reshape(-1, c['nv']), axis=0) == 0):
        raise core.Skip
    R = ref.Spod(x, gen.full_weights(c), c['dt'], c['n_dft'], gen.n_overlap_of(c), c['mean_type'], not c['complex'],
                 c['fullspectrum'], c['normalize_data'], c['normalize_weights'])
    single = c['dtype'] == 'single'
    emax = R.eigs.max()
    rt = 5e-4 if single else 1e-9
    require(int(s.nt) == c['nt'], lambda: f'nt={s.nt}')
    close(np.asarray(s.eigs), R.eigs, 'eigenvalues', rtol=1.0,
          scale=np.broadcast_to(R.eigs[:, :1] * rt + emax * (rt if single else 1e-11), R.eigs.shape))
    close(np.asarray(s.freq), R.freq, 'frequencies', rtol=1e-13)
    rdir = s.savedir_sim
    shp = tuple(c['xshape']) + (c['nv'],)
    for name, want in (('weights.npy', R.w), ('ltm_modes.npy', R.ltm.reshape(shp))):
        close(core.load_npy(os.path.join(rdir, name)), want.reshape(shp), name, rtol=1e-5 if single else 1e-11,
              scale=np.abs(want) if name == 'weights.npy' else np.abs(x).max())
    for f in range(R.nf):
        m = drive.modes_of(rdir, f, c)
        require(np.all(np.isfinite(m)), f'frequency {f}: non-finite mode')
        if R.eigs_raw[f, 0] < (1e-4 if single else 1e-12) * emax or emax == 0:
            continue
        judge_modes(m.astype(complex), R.eigs_raw[f], R, f, c['dtype'], f'frequency {f}')


# ------------------------------------------------------------------------------------------------
@st.composite
def reader_cases(draw):
    c = dict(seed=draw(st.integers(0, 2 ** 20)), nt=draw(st.integers(1, 25)), nv=draw(st.sampled_from([1, 1, 2, 3])),
             xshape=draw(gen.xshapes(max_points=20)), complex=draw(st.integers(0, 3)) == 0, kind='noise')
    c['elem'] = draw(st.sampled_from(['f8', 'f4', 'mixed', 'int']))
    if c['elem'] == 'int':
        c.update(kind='ints', complex=False)
    c['axis'] = draw(st.sampled_from(['keep', 'drop'])) if c['nv'] == 1 else 'keep'
    c['store'] = draw(storage(c['nt']))
    c['latecomplex'] = False
    c['wform'], c['w'] = 'full', 'none'
    c['dtype'] = draw(st.sampled_from(['float64', 'float64', 'float32']))
    c['ranges'] = [sorted(r) for r in draw(st.lists(st.tuples(st.integers(0, c['nt']), st.integers(0, c['nt'])),
                                                    min_size=1, max_size=8)) if r[0] != r[1]] or [[0, c['nt']]]
    return c


def reader(c, ctx):
    from pyspod.utils.reader import reader_1stage
    lab(c, ctx)
    x = plain(c)
    r = reader_1stage(parts(c, x, ctx), len(c['xshape']), np.dtype(c['dtype']).type, None, c['nv'])
    want = x.astype(np.result_type(c['dtype'], np.complex64) if c['complex'] else c['dtype'])
    require(int(r.nt) == c['nt'], lambda: f'reader: nt={r.nt}, expected {c["nt"]}')
    require(tuple(r.xshape) == tuple(c['xshape']), lambda: f'reader: xshape={r.xshape}')
    require(int(r.nx) == int(np.prod(c['xshape'])), lambda: f'reader: nx={r.nx}')
    require(bool(r.is_real) == (not c['complex']), lambda: f'reader: is_real={r.is_real}')
    equal(np.asarray(r.get_data()), want, 'reader: all data')
    for a, b in c['ranges']:
        equal(np.asarray(r.get_data_for_time(a, b)), want[a:b], f'reader: times {a} to {b}')
        equal(np.asarray(r.get_data(a)), want[a:a + 1], f'reader: time {a}')


@st.composite
def getter_cases(draw):
    c = draw(gen.spod_cases(dtypes=('double',), f32_ok=True, max_nt=30, n_dft_max=8, max_points=20, normalize_data_ok=False,
                            weights=('none',), kinds=('noise', 'ints')))
    c['model'] = draw(st.sampled_from(['spod', 'pod']))
    c['xr'] = draw(st.booleans())
    c['other'] = draw(st.integers(1, 30))
    n = c['other']
    c['ranges'] = draw(st.lists(st.tuples(st.one_of(st.none(), st.integers(0, n)), st.one_of(st.none(), st.integers(0, n))),
                                min_size=1, max_size=8)) + [[None, None]]
    return c


def getter(c, ctx):
    """the snapshots back from a model, all or some, always with the axis of the variables"""
    from pyspod.pod.standard import Standard as POD
    if c['model'] == 'pod':
        s = POD(params=dict(time_step=c['dt'], n_space_dims=len(c['xshape']), n_variables=c['nv'], savedir=ctx.dir()))
        s.fit(data_list=[gen.make_data(c)])
    else:
        s = drive.standard(c, ctx.dir())
    c2 = dict(c, nt=c['other'], seed=c['seed'] + 5)
    raw, want = gen.make_data(c2), gen.make_data(dict(c2, squeeze=False))
    arg = raw
    if c['xr']:
        import xarray as xr
        arg = xr.DataArray(raw)
    for a, b in c['ranges']:
        k = {}
        if a is not None:
            k['t_0'] = a
        if b is not None:
            k['t_end'] = b
        got = s.get_data(arg, **k)
        require(isinstance(got, np.ndarray), lambda: f'get_data({k}) returned {type(got)}')
        equal(got, want[a:b], f'get_data({k})')
    ctx.label(c['model'], f'squeeze={c["squeeze"]}', f'xarray={c["xr"]}')
    ctx.nontrivial(len(want) > 1)


SUBS = [
    Sub('getter', getter_cases, getter, quick=200, thorough=3000),
    Sub('large', lambda: cases(large=gen.LARGE), fit, quick=40, thorough=400),
    Sub('fit', lambda: cases(), fit, quick=350, thorough=6000),
    Sub('fit2', lambda: cases().map(lambda c: dict(c, seed=c['seed'] + 11)), fit, quick=350, thorough=6000),
    Sub('reader', lambda: reader_cases(), reader, quick=600, thorough=10000),
]

PROBES = [core.Probe('weights-noaxis', 'SPOD with normalize_weights=True and weights in the shape of single-variable data of '
                     'two or three dimensions (no variable axis): only the points with last index 0 are normalized '
                     '(the stable test test_weights_3d pins values that depend on it)', probe_noaxis)]
