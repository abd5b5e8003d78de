"""C09: fits on netCDF and MATLAB files give the decomposition of the same data in memory."""
import os
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, drive, core
from pbt.core import Sub, close, require, equal
from pbt.checks.c02 import judge_modes

PROPERTY = 'C09'
RULE = ('random data written to 1 to 6 netCDF files (several variables, double/float/short/packed storage, numeric, calendar, '
        'decreasing, repeated or no time coordinate) or (real or complex) to one MATLAB file per time, fitted on 1, 2, 3 and 5 MPI processes '
        'through both ways of exchanging data and with the data cut in 1 to 3 chunks; judged against the reference for the '
        'array; non-trivial = several files, or several variables, or an uneven share of points')
ASSUMPTIONS = ['the exchange for more than 2^31 numbers is reached by lowering the threshold, not by that many numbers',
               'the number of chunks, which follows from the memory needed, is set from outside']


@st.composite
def file_cases(draw, fmt, large=None):
    c = draw(gen.spod_cases(max_nt=60, n_dft_max=12, max_points=30, f32_ok=False, complex_ok=fmt == 'mat',
                            dtypes=('double', 'double', 'single'), nvs=(1, 1, 2, 3),
                            ndims=gen.NDIMS if fmt == 'nc' else (3,), extra_points=draw(st.sampled_from([-20, 2])), large=large))
    if c['nt'] < 9:
        c['n_dft'], c['overlap'], c['nt'] = 4, 0, 9
    c['squeeze'] = False
    c['offset'] = draw(st.sampled_from([0.0, 1.0]))
    c['w'] = draw(st.sampled_from(['none', 'rand', 'pervar']))
    c['normalize_data'] = c['normalize_data'] and c['dtype'] == 'double'
    c['padded'] = draw(st.booleans())
    c['nchunks'] = draw(st.sampled_from([None, None, 1, 2, 3]))
    if fmt == 'nc':
        k = min(draw(st.integers(0, 12 if large else 5)), c['nt'] - 1)
        c['cuts'] = sorted(draw(st.lists(st.integers(1, c['nt'] - 1), min_size=k, max_size=k, unique=True)))
        c['stored'] = draw(st.sampled_from(['f8', 'f8', 'f4', 'i2', 'packed']))
        c['time'] = draw(st.sampled_from(['int', 'float', 'days', 'none', 'reset', 'decreasing', 'repeated']))
        c['extra'] = draw(st.booleans())
        c['names'] = draw(st.sampled_from(['sorted', 'scrambled']))
    else:
        c['stored'] = draw(st.sampled_from(['f8', 'f8', 'f4', 'i2']))
        c['names'] = draw(st.sampled_from(['sorted', 'shuffled']))
        # complex numbers: h5py's type, or pairs as MATLAB writes them, which stores real what is real at a time
        c['pairs'] = draw(st.sampled_from(['no', 'all', 'narrow']))
    if c['stored'] in ('i2', 'packed'):
        c.update(kind='ints', amp=1.0, offset=0.0, vscale=False, complex=False)
    return c


def low(x):
    return x.astype(np.complex64).astype(complex) if np.iscomplexobj(x) else x.astype(np.float32).astype(float)


def values(c):
    x = gen.full_data(c)
    if c['stored'] == 'f4':
        x = low(x)
    if c['stored'] == 'packed':
        x = x * 0.25 + 1.5
    return x


def write_nc(c, x, d):
    import xarray as xr
    b = [0] + c['cuts'] + [len(x)]
    n = len(b) - 1
    # the order of the list is the order in time, whatever the names
    names = [f'f{i:03d}.nc' if c['names'] == 'sorted' else f'g{(7 * i + 3) % 11:02d}_{i}.nc' for i in range(n)]
    xd = [f's{i}' for i in range(len(c['xshape']))]
    files = []
    for i, (lo, hi) in enumerate(zip(b, b[1:])):
        m = hi - lo
        k = np.arange(lo, hi)
        coords = {}
        t = c['time']
        if t == 'int':
            coords['time'] = k * 3
        elif t == 'float':
            coords['time'] = 0.5 * k - 2.0
        elif t == 'days':
            coords['time'] = np.datetime64('2000-01-01T00:00:00', 'ns') + k * np.timedelta64(6, 'h')
        elif t == 'reset':
            coords['time'] = np.arange(m) * 1.0
        elif t == 'decreasing':
            coords['time'] = -k
        elif t == 'repeated':
            coords['time'] = k // 2
        for j, q in enumerate(xd):
            coords[q] = np.arange(c['xshape'][j]) * 1.5
        dv = {}
        for v in range(c['nv']):
            a = x[lo:hi, ..., v]
            if c['stored'] == 'f4':
                a = a.astype(np.float32)
            elif c['stored'] == 'i2':
                a = np.rint(a).astype(np.int16)
            dv[f'q{v}'] = (['time'] + xd, a)
        if c['extra']:
            dv['aaa'] = (['time'], np.arange(m) * 1.0)
            dv['zzz'] = (xd, np.ones(c['xshape']))
        ds = xr.Dataset(dv, coords=coords)
        enc = {}
        if c['stored'] == 'packed':
            enc = {f'q{v}': dict(dtype='int16', scale_factor=0.25, add_offset=1.5) for v in range(c['nv'])}
        f = os.path.join(d, names[i])
        ds.to_netcdf(f, encoding=enc)
        files.append(f)
    return files


def write_mat(c, x, d):
    import h5py
    dt = dict(f8=np.float64, f4=np.float32, i2=np.int16)[c['stored']]
    if c['complex']:
        dt = np.result_type(dt, np.complex64)
    files = []
    for i in range(len(x)):
        f = os.path.join(d, f'step_{i:05d}.mat')
        with h5py.File(f, 'w') as h:
            y = np.moveaxis(x[i], -1, 0).astype(dt)
            how = c.get('pairs', 'no') if c['complex'] else 'no'
            if how == 'narrow' and not y.imag.any():
                y = y.real
            elif how != 'no':
                z = np.empty(y.shape, dtype=[('real', y.real.dtype), ('imag', y.real.dtype)])
                z['real'], z['imag'] = y.real, y.imag
                y = z
            h['q'] = y
        files.append(f)
    if c['names'] == 'shuffled':
        np.random.RandomState(c['seed']).shuffle(files)
    return files


def judge(c, x, out, rdir):
    if c['dtype'] == 'single':
        x = low(x)
    R = ref.Spod(x, gen.full_weights(c), c['dt'], c['n_dft'], gen.n_overlap_of(c), c['mean_type'], not c['complex'],
                 c['fullspectrum'], c['normalize_data'], c['normalize_weights'])
    single = c['dtype'] == 'single'
    emax = R.eigs.max()
    rt = 5e-4 if single else 1e-9
    nm = min(c['n_modes_save'], R.nb)
    for k, o in enumerate(out):
        w = f'rank {k} of {len(out)}: '
        require(o['nt'] == c['nt'], lambda: f'{w}nt={o["nt"]}, expected {c["nt"]}')
        require(o['nx'] == int(np.prod(c['xshape'])), lambda: f'{w}nx={o["nx"]}')
        require(tuple(o['xshape']) == tuple(c['xshape']), lambda: f'{w}xshape={o["xshape"]}')
        close(o['freq'], R.freq, w + 'frequencies', rtol=1e-13)
        close(o['eigs'], R.eigs, w + 'eigenvalues', rtol=1.0,
              scale=np.broadcast_to(R.eigs[:, :1] * rt + emax * (rt if single else 1e-11), R.eigs.shape))
    z = core.load_npz(os.path.join(rdir, 'eigs_freq.npz'), ['eigs', 'freq'])
    equal(z['eigs'], out[0]['eigs'], 'stored eigenvalues')
    for name, want in (('weights.npy', R.w), ('ltm_modes.npy', R.ltm)):
        got = core.load_npy(os.path.join(rdir, name))
        require(got.size == want.size, lambda: f'{name}: {got.shape}')
        close(got.ravel(), want.ravel(), name, rtol=1e-5 if single else 1e-11,
              scale=np.abs(want).max() if name == 'weights.npy' else max(np.abs(x).max(), 1e-300))
    import pyspod.utils.postproc as post
    shp = tuple(c['xshape']) + (c['nv'], nm)
    listed = sorted(os.listdir(os.path.join(rdir, 'modes')))
    require(len(listed) == R.nf * nm, lambda: f'{len(listed)} mode files for {R.nf} frequencies and {nm} modes')
    for f in range(R.nf):
        m = np.stack([core.load_npy(os.path.join(rdir, 'modes', f'freq_idx_f{f:08d}_m{k:08d}.npy')) for k in range(nm)], axis=-1)
        core.same_shape(m, np.empty(shp), f'modes of frequency {f}')
        require(np.all(np.isfinite(m)), f'frequency {f}: non-finite mode')
        equal(post.get_modes_at_freq(rdir, f), m, f'get_modes_at_freq({f})')
        if emax == 0 or R.eigs_raw[f, 0] < (1e-4 if single else 1e-12) * emax:
            continue
        judge_modes(m.reshape(-1, nm).astype(complex), R.eigs_raw[f], R, f, c['dtype'], f'frequency {f}')
    return R


def check(fmt, n):
    def run(c, ctx):
        x = values(c)
        if c['normalize_weights'] and np.any(np.var(x.reshape(-1, c['nv']), axis=0) == 0):
            raise core.Skip
        d = ctx.dir('f')
        files = write_nc(c, x, d) if fmt == 'nc' else write_mat(c, x, d)
        sd = ctx.dir('r')
        nx = int(np.prod(c['xshape']))
        ctx.label('stored=' + c['stored'], f'complex={c.get("pairs", "yes") if c["complex"] else False}', f'padded={c["padded"]}', f'nchunks={c["nchunks"]}', f'nv={c["nv"]}',
                  'points<ranks' if nx < n else ('uneven' if nx % n else 'even'), f'nw={c["normalize_weights"]}',
                  f'files={len(files) if fmt == "nc" else "many"}', *(['time=' + c['time']] if fmt == 'nc' else []))
        nch = c['nchunks']
        if nch is not None and c['nt'] < 3 * nch:
            nch = None
        out = ctx.mpi(n).run('fit_files', dict(c=c, files=files, variables=[f'q{v}' for v in range(c['nv'])] if fmt == 'nc' else None,
                                               savedir=sd, small_int=0 if c['padded'] else None, nchunks=nch))
        judge(c, x, out, drive.results_dir(c, sd))
        ctx.nontrivial(len(files) > 1 or c['nv'] > 1 or nx % n != 0)
    return run


LARGE = dict(nc=('blocks', 'dft', 'points', 'vars'), mat=('blocks', 'points', 'vars'))
SUBS = [Sub(f'{fmt}{n}', (lambda fmt=fmt: file_cases(fmt)), check(fmt, n), quick=q, thorough=15 * q, slots=n, case_limit=150)
        for fmt, n, q in (('nc', 1, 60), ('nc', 2, 90), ('nc', 3, 110), ('nc', 5, 90),
                          ('mat', 1, 40), ('mat', 2, 60), ('mat', 3, 70), ('mat', 5, 50))] + \
    [Sub(f'large_{fmt}{n}', (lambda fmt=fmt: file_cases(fmt, LARGE[fmt])), check(fmt, n), quick=q, thorough=10 * q, slots=n, case_limit=200)
     for fmt, n, q in (('nc', 1, 20), ('nc', 3, 25), ('mat', 1, 15), ('mat', 3, 20))]
