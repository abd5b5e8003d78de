"""C14: POD coefficients and reconstruction."""
import os
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, drive, core
from pbt.core import Sub, close, require, equal
from pbt.checks import c13
from pbt.checks.c06 import times

PROPERTY = 'C14'
RULE = ('POD fits as for C13; the fitted or other data projected through the method and the function, reconstructed at all '
        'documented selections of times from stored or passed coefficients; energy of the discarded modes; non-trivial = '
        'non-zero coefficients at two times')
ASSUMPTIONS = []


@st.composite
def cases(draw, large=None):
    c = draw(c13.pod_cases(max_nt=30, max_points=24, dtypes=('double',), large=large))
    c['f32'] = False
    c['amp'] = draw(st.sampled_from([1.0, 1.0, 1e-7, 1e6]))
    c['other'] = draw(st.booleans())
    c['nt2'] = draw(st.integers(2, 500 if large else 30)) if c['other'] else c['nt']
    c['via'] = draw(st.sampled_from(['method', 'function']))
    c['sub'] = draw(st.sampled_from([None, None, 'mine']))
    c['container2'] = draw(st.sampled_from(['numpy', 'numpy', 'fortran', 'xarray', 'readonly', 'float32']))
    nt = c['nt2']
    c['tidx'] = draw(st.one_of(st.sampled_from(['all', 'half', 'quarter', 'tenth', 'hundredth', 'ALL', 'Half', None]),
                               st.lists(st.integers(0, nt - 1), min_size=1, max_size=12)))
    n = nt if c['n_modes_save'] is None else min(c['n_modes_save'], c['nt'])
    n = min(n, c['nt'])
    c['midx'] = draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, n - 1), min_size=1, max_size=4, unique=True)))
    c['pass'] = draw(st.sampled_from(['stored', 'stored', 'passed', 'changed']))
    c['file'] = draw(st.sampled_from([None, None, 'rec', 'other_name']))
    c['rsub'] = draw(st.sampled_from([None, None, 'sub']))
    return c


def projected(c):
    """the data to project, as handed in and as judged"""
    x = gen.full_data(dict(c, nt=c['nt2'], seed=c['seed'] + 9)) if c['other'] else c13.data(c)
    raw = x[..., 0] if c['squeeze'] else x
    k = c['container2']
    if k == 'float32':
        raw = raw.astype(np.complex64 if c['complex'] else np.float32)
        x = raw.astype(x.dtype).reshape(x.shape)
    elif k == 'fortran':
        raw = np.asfortranarray(raw)
    elif k == 'xarray':
        import xarray as xr
        raw = xr.DataArray(raw)
    elif k == 'readonly':
        raw = raw.copy()
        raw.flags.writeable = False
    return raw, x


def rec(c, ctx):
    import pyspod.pod.utils as up
    x0, wd, R = c13.setting(c)
    s, rdir = drive.pod(c, ctx.dir(), c13.user(c, x0), wd)
    raw, x = projected(c)
    keep = np.array(raw)
    nt = len(x)
    shp = tuple(c['xshape']) + (c['nv'],)
    fit = drive.snapshot_tree(rdir)
    method = c['via'] == 'method' and c['sub'] is None
    if method:
        file, cdir = s.compute_coeffs_op(raw, results_dir=rdir, modes_idx=gen.indices(c['midx'], c))
    else:
        file, cdir = up.compute_coeffs_op(raw, results_dir=rdir, savedir=c['sub'], modes_idx=gen.indices(c['midx'], c))
    require(os.path.realpath(cdir) == os.path.realpath(os.path.join(rdir, 'coeffs', c['sub'] or '')),
            lambda: f'coefficients in {cdir}')
    require(os.path.realpath(file) == os.path.realpath(os.path.join(cdir, 'coeffs.npy')), lambda: f'coefficients file {file}')
    phi = core.load_npy(os.path.join(rdir, 'modes.npy'))
    if c['midx'] is not None:
        phi = phi[..., c['midx']]
    n = phi.shape[-1]
    phi = phi.reshape(-1, n)
    w = core.load_npy(os.path.join(rdir, 'weights.npy')).reshape(-1)
    X = x.reshape(nt, -1)
    mean = X.mean(axis=0)
    a = core.load_npy(file)
    core.same_shape(a, np.empty((n, nt)), 'coefficients')
    want = phi.conj().T @ (w[:, None] * (X - mean).T)
    lim = np.max(np.abs(phi.conj().T) @ (w[:, None] * np.abs(X.T)))
    tol = 1e-5 if c['container2'] == 'float32' else 1e-11
    close(a, want, 'coefficients', rtol=tol, scale=lim)
    require(np.array_equal(np.array(raw), keep), 'data changed by the projection')
    close(core.load_npy(os.path.join(cdir, 'ltm.npy')), mean.reshape(shp), 'stored mean', rtol=tol, scale=np.abs(X).max())
    close(core.load_npy(os.path.join(cdir, 'modes_r.npy')), phi.reshape(shp + (n,)), 'stored modes', rtol=1e-15)
    passed = None
    if c['pass'] == 'passed':
        passed = a.copy()
    elif c['pass'] == 'changed':
        a = a * 2 + np.arange(nt)
        passed = a.copy()
    before = drive.snapshot_tree(rdir)
    for q, b in fit.items():
        require(before.get(q) == b, lambda: f'{q} changed by the projection')
    if method and not c['file'] and not c['rsub']:
        rfile, _ = s.compute_reconstruction(coeffs_dir=cdir, time_idx=c['tidx'], coeffs=passed)
        name, sub = None, None
    else:
        name, sub = c['file'], c['rsub']
        rfile, _ = up.compute_reconstruction(cdir, time_idx=c['tidx'], coeffs=passed, filename=name, savedir=sub)
    require(os.path.realpath(rfile) == os.path.realpath(os.path.join(cdir, sub or '', (name or 'reconstructed') + '.npy')),
            lambda: f'reconstruction saved in {rfile}')
    after = drive.snapshot_tree(rdir)
    rel = os.path.relpath(rfile, rdir)
    for q, b in before.items():
        require(q == rel or after.get(q) == b, lambda: f'{q} changed by the reconstruction')
    if passed is not None:
        equal(passed, a, 'coefficients after the reconstruction')
    got = core.load_npy(rfile)
    full = (mean[:, None] + phi @ a).T.reshape((nt,) + shp)
    sc = np.abs(mean).max() + (np.abs(phi) @ np.abs(a)).max()
    t = times(c['tidx'], nt)
    if t is None:
        require(len(got) >= 2, f'{len(got)} times')
        close(got[0], full[0], 'default reconstruction, first time', rtol=tol, scale=sc)
        close(got[-1], full[-1], 'default reconstruction, last time', rtol=tol, scale=sc)
    else:
        close(got, full[t], f'reconstruction at the requested times {t[:6]}', rtol=tol, scale=sc)
    ctx.label(f'via={c["via"]}', 'times=' + ('list' if isinstance(c['tidx'], list) else str(c['tidx'])), 'coeffs=' + c['pass'],
              'modes=' + ('all' if c['midx'] is None else 'some'), f'other={c["other"]}', f'complex={c["complex"]}')
    ctx.nontrivial((t is None or len(set(t)) >= 2) and np.abs(a).max() > 0)


def energy(c, ctx):
    """truncation to r modes leaves the discarded eigenvalues; all modes leave nothing"""
    import pyspod.pod.utils as up
    c = dict(c, mean_type='longtime', container='numpy', f32=False)
    x, wd, R = c13.setting(c)
    s, rdir = drive.pod(c, ctx.dir(), c13.user(c, x), wd)
    nt = c['nt']
    raw = x[..., 0] if c['squeeze'] else x
    _, cdir = up.compute_coeffs_op(raw, results_dir=rdir)
    rfile, _ = up.compute_reconstruction(cdir, time_idx='all')
    got = core.load_npy(rfile).reshape(nt, -1)
    n = nt if c['n_modes_save'] is None else min(c['n_modes_save'], nt)
    X = x.reshape(nt, -1)
    err = float(np.sum(np.abs(got - X) ** 2 * R.W))
    tot = float(np.sum(R.eigs))
    noise = float(np.sum(np.abs(R.mean) ** 2 * R.W)) * nt
    left = float(np.sum(np.maximum(R.eigs[n:], 0)))
    lim = 1e-10 * tot + 1e-24 * noise + 1e-300
    require(abs(err - left) <= lim, lambda: f'{n} of {nt} modes leave the squared error {err!r}, the discarded eigenvalues '
            f'sum to {left!r} (allowed difference {lim:.2g})')
    e = np.asarray(s.eigs)
    require(abs(float(np.sum(e[n:])) - err) <= lim * 10, lambda: f'reported eigenvalues beyond {n} sum to {np.sum(e[n:])!r}, '
            f'squared error {err!r}')
    ctx.label(f'form={c["form"]}', 'all modes' if n >= nt else 'truncated', f'w={c["w"]}')
    ctx.nontrivial(tot > 1e3 * lim and left < tot)


def bad(c, ctx):
    import pyspod.pod.utils as up
    c = dict(c, form='plain', normalize_weights=False)
    x, wd, R = c13.setting(c)
    s, rdir = drive.pod(c, ctx.dir(), c13.user(c, x), wd)
    core.raises(ValueError, lambda: s.compute_reconstruction(coeffs_dir='x', time_idx='all'), 'reconstruction before coefficients')
    f, d = up.compute_coeffs_op(x, results_dir=rdir)
    core.raises(TypeError, lambda: up.compute_reconstruction(d, time_idx=c['bad']), f'time_idx={c["bad"]!r}')
    os.remove(f)
    core.raises(Exception, lambda: up.compute_reconstruction(d, time_idx='all'), 'missing coefficients')
    ctx.nontrivial()



SUBS = [
    Sub('large', lambda: cases(large=('times', 'points', 'vars')), rec, quick=50, thorough=600),
    Sub('expansion', cases, rec, quick=500, thorough=9000),
    Sub('expansion2', cases, rec, quick=500, thorough=9000),
    Sub('energy', lambda: c13.pod_cases(max_nt=30, max_points=30, dtypes=('double',)), energy, quick=700, thorough=12000),
    Sub('invalid', lambda: st.builds(lambda c, b: dict(c, bad=b), c13.pod_cases(dtypes=('double',)), st.sampled_from([3, 2.5, {'a': 1}])),
        bad, quick=40, thorough=400),
]
