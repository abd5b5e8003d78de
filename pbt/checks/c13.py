"""C13: POD modes and eigenvalues diagonalise the weighted correlation."""
import os
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, drive, core
from pbt.core import Sub, close, require, equal
from pbt.checks.c02 import judge_modes

PROPERTY = 'C13'
RULE = ('random, rank-deficient, repeated and degenerate data of one or several variables, real or complex, as one array or '
        'cut into a list, any number of requested modes, weights, mean and weight normalisation, against the eigenvalues '
        'of the snapshot correlation and the residual of the spatial one; non-trivial = two modes with non-negligible '
        'eigenvalue')
ASSUMPTIONS = ['numpy/LAPACK are trusted']


@st.composite
def pod_cases(draw, max_nt=40, max_points=40, dtypes=('double', 'double', 'double', 'single'), large=None):
    c = dict(seed=draw(st.integers(0, 2 ** 20)), nt=draw(st.integers(2, max_nt)), nv=draw(st.sampled_from([1, 1, 2, 3])))
    big = draw(st.sampled_from(large)) if large else None
    if big == 'times':
        c['nt'] = draw(st.integers(150, 500))
    elif big == 'vars':
        c['nv'] = draw(st.integers(11, 40))
    c['xshape'] = draw(gen.xshapes(max_points=max(1, max_points // c['nv']))) if big != 'points' else \
        draw(gen.xshapes(min_points=draw(st.integers(300, 3000)), max_points=3000))
    c['squeeze'] = draw(st.booleans()) if c['nv'] == 1 else False
    c['kind'] = draw(st.sampled_from(['noise', 'waves', 'trend', 'ints', 'spiky']))
    c['form'] = draw(st.sampled_from(['plain', 'plain', 'plain', 'plain', 'rank1', 'repeat', 'constant', 'orthogonal']))
    c['amp'] = draw(st.sampled_from([1.0, 1.0, 1e-3, 250.0, 1e-8, 1e7]))
    c['offset'] = draw(st.sampled_from([0.0, 0.0, 1.0, -20.0]))
    c['vscale'] = draw(st.booleans()) if c['nv'] > 1 else False
    c['complex'] = draw(st.integers(0, 3)) == 0
    if c['complex']:
        c['reals'] = draw(st.sampled_from([None, None, 'first', 'last', 'one']))
    c['f32'] = draw(st.integers(0, 5)) == 0
    c['dtype'] = draw(st.sampled_from(list(dtypes)))
    c['mean_type'] = draw(st.sampled_from(['longtime', 'longtime', 'zero', 'LongTime', 'Zero', None]))
    c['normalize_weights'] = draw(st.booleans())
    c['w'] = draw(st.sampled_from(['none', 'rand', 'wide', 'pervar', 'ones', 'zeros', 'ints', 'f4']))
    c['wform'] = draw(st.sampled_from(['full', 'full', 'flat', 'drop']))
    c['n_modes_save'] = draw(st.one_of(st.none(), st.just(c['nt']), st.integers(1, c['nt'] + 3)))
    c['dt'] = draw(st.sampled_from([1.0, 0.1, 3.0]))
    k = draw(st.one_of(*[st.integers(0, 2)] * 5, st.integers(3, 20)))
    c['cuts'] = sorted(set(draw(st.lists(st.integers(1, c['nt'] - 1), min_size=k, max_size=k))))
    c['aslist'] = draw(st.booleans())
    c['container'] = draw(st.sampled_from(['numpy', 'numpy', 'numpy', 'xarray', 'fortran', 'readonly']))
    c['ptypes'] = draw(st.sampled_from(gen.PTYPES))
    return c


def data(c):
    """with variable axis, in the precision handed in"""
    x = gen.full_data(c)
    rng = np.random.RandomState(c['seed'] + 5)
    if c['form'] == 'rank1':
        s = rng.standard_normal(x.shape[1:]) * (1 + 2j if c['complex'] else 1)
        x = rng.standard_normal(c['nt']).reshape((-1,) + (1,) * s.ndim) * s * c['amp']
    elif c['form'] == 'repeat':
        x = x[np.arange(c['nt']) % max(1, c['nt'] // 3)]
    elif c['form'] == 'constant':
        x[:] = x[:1]
    elif c['form'] == 'orthogonal':
        # equal eigenvalues
        n = x[0].size
        x = np.zeros((c['nt'], n), dtype=x.dtype)
        for t in range(c['nt']):
            x[t, (t // 2) % n] = c['amp'] * (1 if t % 2 else -1)
        x = x.reshape((c['nt'],) + tuple(c['xshape']) + (c['nv'],))
    x = np.ascontiguousarray(x)
    if c['f32']:
        x = x.astype(np.complex64 if c['complex'] else np.float32)
    return x


def weights(c):
    if c['w'] == 'zeros':
        rng = np.random.RandomState(c['seed'] + 77)
        a = rng.uniform(0.1, 2.0, size=tuple(c['xshape']) + (c['nv'],))
        a.ravel()[rng.uniform(size=a.size) < 0.3] = 0
        w = dict(weights=a, weights_name='zeros')
    else:
        w = gen.make_weights(c)
    if w is not None:
        full = w['weights']
        if c['wform'] == 'flat':
            w = dict(w, weights=full.ravel())
        elif c['wform'] == 'drop' and c['nv'] == 1:
            w = dict(w, weights=full[..., 0])
        return w, full
    return None, np.ones(tuple(c['xshape']) + (c['nv'],))


def user(c, x):
    """the data as handed in"""
    x = x[..., 0] if c['squeeze'] else x
    b = [0] + c['cuts'] + [len(x)]
    out = []
    for lo, hi in zip(b, b[1:]):
        a = x[lo:hi].copy()
        if c['container'] == 'xarray':
            import xarray as xr
            a = xr.DataArray(a)
        elif c['container'] == 'fortran':
            a = np.asfortranarray(a)
        elif c['container'] == 'readonly':
            a.flags.writeable = False
        out.append(a)
    return out if len(out) > 1 or c['aslist'] else out[0]


def setting(c):
    """(data, weights dict, reference), or Skip"""
    x = data(c)
    wd, w = weights(c)
    if not np.any(w > 0):
        raise core.Skip
    xr = x.astype(complex if c['complex'] else float)
    if c['dtype'] == 'single':
        if abs(c['offset']) > 5 or c['w'] in ('wide', 'zeros') or c['form'] not in ('plain', 'orthogonal'):
            raise core.Skip
        xr = xr.astype(np.complex64 if c['complex'] else np.float32).astype(xr.dtype)
    var = np.var(xr.reshape(-1, c['nv']), axis=0)
    if c['normalize_weights'] and np.any(var <= 1e-20 * np.abs(xr).max() ** 2):
        raise core.Skip
    return x, wd, ref.Pod(xr, w, c['mean_type'] or 'longtime', c['normalize_weights'])


def lab(c, ctx):
    ctx.label(f'form={c["form"]}', f'w={c["w"]}', f'complex={c["complex"]}', f'nv={c["nv"]}', f'mean={c["mean_type"]}',
              f'nw={c["normalize_weights"]}', f'parts={len(c["cuts"]) + 1}', f'dtype={c["dtype"]}',
              'modes=' + ('default' if c['n_modes_save'] is None else 'more' if c['n_modes_save'] > c['nt'] else 'given'))


def check(c, ctx):
    x, wd, R = setting(c)
    lab(c, ctx)
    s, rdir = drive.pod(c, ctx.dir(), user(c, x), wd)
    single = c['dtype'] == 'single'
    nt = c['nt']
    n = nt if c['n_modes_save'] is None else min(c['n_modes_save'], nt)
    shp = tuple(c['xshape']) + (c['nv'],)
    noise = np.abs(R.mean).max() ** 2 * R.W.sum() * nt      # what a removed mean leaves behind
    tot = max(R.eigs.max(), 0)
    e = np.asarray(s.eigs)
    core.same_shape(e, R.eigs, 'eigenvalues')
    require(e.dtype.kind == 'f', lambda: f'eigenvalues of type {e.dtype}')
    close(e, R.eigs, 'eigenvalues', rtol=1.0, scale=tot * (1e-4 if single else 1e-11) + noise * (1e-10 if single else 1e-25) + 1e-300)
    require(np.all(np.diff(e) <= 1e-15 * max(tot, 0) + 1e-300), 'eigenvalues not in descending order')
    equal(core.load_npz(os.path.join(rdir, 'eigs.npz'), ['eigs'])['eigs'], e, 'stored eigenvalues')
    close(core.load_npy(os.path.join(rdir, 'weights.npy')), R.w, 'stored weights', rtol=1.0,
          scale=np.abs(R.w) * (1e-4 if single or c['f32'] else 1e-11) + 1e-300)
    close(np.asarray(s.weights).reshape(-1), R.W, 'weights of the model', rtol=1.0,
          scale=np.abs(R.W) * (1e-4 if single or c['f32'] else 1e-11) + 1e-300)
    m = core.load_npy(os.path.join(rdir, 'modes.npy'))
    core.same_shape(m, np.empty(shp + (n,)), 'modes')
    require(np.all(np.isfinite(m)), 'non-finite mode')
    require((m.dtype.kind == 'c') == (R.D.dtype.kind == 'c' and not np.isreal(R.D).all()) or m.dtype.kind == 'c',
            lambda: f'modes of type {m.dtype}')
    require(int(s.nt) == nt and tuple(s.xshape) == tuple(c['xshape']) and int(s.nv) == c['nv'] and
            int(s.nx) == int(np.prod(c['xshape'])) and int(s.xdim) == len(c['xshape']) and int(s.dim) == len(c['xshape']) + 2 and
            s.dt == c['dt'], lambda: f'dim={s.dim} xdim={s.xdim} dt={s.dt} nt={s.nt} xshape={s.xshape} nv={s.nv} nx={s.nx}')
    p = core.load_yaml(os.path.join(rdir, 'params_modes.yaml'))
    require(p['time_step'] == c['dt'] and p['n_variables'] == c['nv'] and p['n_space_dims'] == len(c['xshape']),
            lambda: f'parameters {p}')
    floor = noise * (1e-9 if single else 1e-22)
    if tot <= floor or tot == 0:
        return
    rel = max(1e-3 if single else 1e-8, floor / tot * 1e4)
    k = judge_modes(m.reshape(-1, n).astype(complex), R.eigs, R, 0, c['dtype'], 'POD', lam_rel=rel)
    ctx.nontrivial(k >= 2)


def invalid(c, ctx):
    x = data(dict(c, form='plain', f32=False))
    if c['bad'] == 'mean':
        core.raises(ValueError, lambda: drive.pod(dict(c, mean_type='wrong'), ctx.dir(), user(c, x)), 'unknown mean')
    elif c['bad'] == 'weights':
        w = dict(weights=np.ones(int(np.prod(c['xshape'])) * c['nv'] + 1), weights_name='x')
        core.raises(ValueError, lambda: drive.pod(c, ctx.dir(), user(c, x), w), 'weights of the wrong size')
    else:
        y = np.concatenate([x, x], axis=1)
        core.raises(Exception, lambda: drive.pod(c, ctx.dir(), [x, y]), 'data sets of different shape')
    ctx.nontrivial()


SUBS = [
    Sub('large', lambda: pod_cases(large=('times', 'points', 'vars')), check, quick=40, thorough=500),
    Sub('decomposition', pod_cases, check, quick=700, thorough=12000),
    Sub('decomposition2', lambda: pod_cases(max_nt=15, max_points=12), check, quick=700, thorough=12000),
    Sub('wide', lambda: pod_cases(max_nt=90, max_points=150, dtypes=('double',)), check, quick=250, thorough=5000),
    Sub('invalid', lambda: st.builds(lambda c, b: dict(c, bad=b), pod_cases(), st.sampled_from(['mean', 'weights', 'shape'])),
        invalid, quick=40, thorough=400),
]
