"""C05: expansion coefficients are the weighted least-squares (oblique) projection on the stored modes."""
import os
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, drive, core
from pbt.core import Sub, close, require, equal

PROPERTY = 'C05'
RULE = ('random fits (also with fewer points than modes) and projections of the fitted or of other data on all, a period '
        'band, or a list of frequencies; reference: minimum-norm weighted least squares on the stored modes; '
        'non-trivial = at least two modes and non-constant data')
ASSUMPTIONS = ['cases with a singular value within a factor 3 of the cut-off (30 in single precision) are left out']


@st.composite
def proj_cases(draw, large=None):
    c = draw(gen.spod_cases(dtypes=('double',), f32_ok=False, max_nt=70, n_dft_max=12, normalize_data_ok=False,
                            extra_points=draw(st.sampled_from([-20, 2, 2])), max_points=30,
                            weights=('none', 'rand', 'pervar', 'ones'), large=large))
    c['amp'] = draw(st.sampled_from([1.0, 1.0, 1e-7, 1e6]))
    c['n_modes_save'] = draw(st.integers(1, gen.n_blocks_of(c)))
    c['near'] = draw(st.sampled_from([0, 0, 0, 0, 1e-2, 1e-3, 3e-4]))
    if c['near']:
        c.update(kind='near', n_modes_save=draw(st.sampled_from([1, 1, c['n_modes_save']])))
    nf = len(ref.freq_axis(c['n_dft'], 1.0, not c['complex'], c['fullspectrum']))
    sel = draw(st.sampled_from(['all', 'band', 'band', 'list', 'onlyone']))
    c['sel'] = sel
    if sel == 'band':
        a = draw(st.integers(1, max(1, c['n_dft'] // 2)))
        b = draw(st.integers(1, max(1, c['n_dft'] // 2)))
        c['band'] = [min(a, b), max(a, b)]
        c['jit'] = [draw(st.sampled_from([-0.4, -0.2, 0.0, 0.3, 0.45])), draw(st.sampled_from([-0.4, 0.0, 0.2, 0.45]))]
    elif sel == 'list':
        c['flist'] = draw(st.lists(st.integers(0, nf - 1), min_size=1, max_size=min(nf, 40), unique=True))
    c['midx'] = draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, c['n_modes_save'] - 1), min_size=1, max_size=4,
                                                              unique=True)))
    c['onebound'] = draw(st.sampled_from(['none', 'lb', 'ub']))
    c['svd'] = draw(st.booleans())
    c['tol'] = draw(st.sampled_from([1e-10, 1e-10, 1e-6, 1e-3]))
    c['other'] = draw(st.booleans())
    c['nt2'] = draw(st.integers(2, 700 if large else 40)) if c['other'] else c['nt']
    c['via'] = draw(st.sampled_from(['function', 'method']))
    c['container'] = draw(st.sampled_from(['numpy', 'numpy', 'xarray', 'fortran']))
    c['sub'] = draw(st.sampled_from([None, None, 'mine']))
    c['stored'] = draw(st.one_of(st.none(), st.none(), st.sampled_from(gen.STORED)))
    c['single'] = draw(st.integers(0, 5)) == 5
    return c


def selection(c, freq):
    """(keyword arguments, expected frequency ids)"""
    nf = len(freq)
    if c['sel'] == 'all':
        return {}, list(range(nf))
    if c['sel'] == 'onlyone':
        # a single bound does not make a band
        k = {} if c['onebound'] == 'none' else ({'T_lb': 2.0} if c['onebound'] == 'lb' else {'T_ub': 2.0})
        return k, list(range(nf))
    if c['sel'] == 'list':
        return dict(freq_idx=list(c['flist'])), list(c['flist'])
    df = freq[1] - freq[0]
    f1 = (c['band'][0] + c['jit'][0]) * df
    f2 = (c['band'][1] + c['jit'][1]) * df
    if f2 < f1:
        f1, f2 = f2, f1
    lo = int(np.argmin(np.abs(freq - f1)))
    hi = int(np.argmin(np.abs(freq - f2)))
    if hi < lo:
        raise core.Skip
    return dict(T_lb=1 / f2, T_ub=1 / f1), list(range(lo, hi + 1))


def other_data(c):
    c2 = dict(c)
    if c['other']:
        c2.update(seed=c['seed'] + 1000, nt=c['nt2'], kind='noise')
    raw, x = gen.store(gen.make_data(c2), c['stored'])
    return raw, x.reshape(gen.full_data(c2).shape)


def contain(c, x):
    if c['container'] == 'xarray':
        import xarray as xr
        return xr.DataArray(x)
    if c['container'] == 'fortran':
        return np.asfortranarray(x)
    return x


def by_method(c):
    return c['via'] == 'method' and c['sel'] != 'list' and c['sub'] is None and not c['single']


def project(c, s, xin, kw):
    import pyspod.spod.utils as us
    if c.get('midx') is not None:
        kw = dict(kw, modes_idx=gen.indices(c['midx'], c))
    if by_method(c):
        return s.compute_coeffs_op(xin, results_dir=s.savedir_sim, tol=c['tol'], svd=c['svd'], **kw)
    if c['single']:
        kw = dict(kw, dtype='single')
    return us.compute_coeffs_op(xin, results_dir=s.savedir_sim, tol=c['tol'], svd=c['svd'], savedir=c['sub'], **kw)


def basis(c, s, ids):
    sel = slice(None) if c.get('midx') is None else c['midx']
    phi = np.concatenate([drive.modes_of(s.savedir_sim, f, c)[:, sel] for f in ids], axis=1)
    w = core.load_npy(os.path.join(s.savedir_sim, 'weights.npy')).reshape(-1)
    return phi, w


def least_squares(phi, w, y, tol, band=30):
    """minimum-norm weighted least squares; None when the rank decision is ambiguous"""
    A = np.sqrt(w)[:, None] * phi
    u, l, vh = ref.svd(A, full_matrices=False)
    if l[0] == 0:
        return np.zeros((phi.shape[1], y.shape[1])), 0, 1.0
    r = (l / l[0]) ** 2
    if np.any((r > max(tol / band, 1e-16)) & (r < tol * band)):
        return None
    k = r > tol
    k &= r > 1e-12
    a = (vh[k].conj().T / l[k]) @ (u[:, k].conj().T @ (np.sqrt(w)[:, None] * y))
    return a, int(k.sum()), float(1 / r[k].min())


def dropped(phi, w, rank):
    """whether more than rounding is left out by the cut-off"""
    l = ref.svd(np.sqrt(w)[:, None] * phi, full_matrices=False)[1]
    return rank < len(l) and l[rank] > 1e-12 * l[0]


def lab(c, ctx):
    ctx.label(f"near={c['near']}", 'sel=' + c['sel'], 'modes=' + ('all' if c.get('midx') is None else 'some'), f'svd={c["svd"]}', 'other' if c['other'] else 'same', 'via=' + c['via'],
              f'complex={c["complex"]}', f'nv={c["nv"]}', f'tol={c["tol"]}', f'fs={c["fullspectrum"]}',
              f'stored={c["stored"]}', 'single' if c['single'] else 'double')


def described(c, p, kw, freq, ids):
    lo, hi = min(ids), max(ids)
    exp = dict(n_freq_r=len(ids), freq_idx_lb=lo, freq_idx_ub=hi, freq_lb=float(freq[lo]), freq_ub=float(freq[hi]))
    for k in ('T_lb', 'T_ub'):
        if k in kw:
            exp[k] = kw[k]
    for k, v in exp.items():
        require(k in p and abs(p[k] - v) <= 1e-12 * abs(v), lambda: f'params_coeffs.yaml: {k}={p.get(k)!r}, expected {v!r}')
    m = p.get('modes_idx')
    require((m is None) == (c.get('midx') is None) and (m is None or [int(i) for i in m] == list(c['midx'])),
            lambda: f'params_coeffs.yaml: modes_idx={m!r}, used {c.get("midx")!r}')


def coeffs(c, ctx):
    lab(c, ctx)
    s = drive.standard(c, ctx.dir())
    freq = np.asarray(s.freq)
    kw, ids = selection(c, freq)
    raw, x = other_data(c)
    nt = len(x)
    phi, w = basis(c, s, ids)
    y = (x.reshape(nt, -1) - x.reshape(nt, -1).mean(axis=0)).T
    want = least_squares(phi, w, y, c['tol'], 30 if c['single'] else 3)
    if want is None:
        raise core.Skip
    a, rank, cond = want
    one = c['single']
    if one and (cond > 1e3 or rank < phi.shape[1]):
        # what single precision makes of a (nearly) singular system is not settled
        raise core.Skip
    xin = contain(c, raw)
    keep = np.array(raw, copy=True)
    file, cdir = project(c, s, xin, kw)
    equal(np.asarray(xin), keep, 'data after the projection')
    got = core.load_npy(file, 'coefficients')
    scale = max(np.abs(a).max(), 1e-12 * np.abs(x).max()) if a.size else 0
    ymax = np.abs(y).max() + 1e-12 * np.abs(x).max()
    close(got, a, f'coefficients ({c["sel"]}, {len(ids)} frequencies, rank {rank})', rtol=1e-5 * cond if one else 1e-9,
          atol=(1e-5 if one else 1e-13) * cond * max(scale, ymax, np.abs(x).max() if one else 0))
    # what is saved with them
    lo, hi = min(ids), max(ids)
    wd = os.path.join(s.savedir_sim, f'coeffs_{lo}_{hi}')
    if c['sub']:
        wd = os.path.join(wd, c['sub'])
    require(os.path.realpath(cdir) == os.path.realpath(wd), lambda: f'coefficients in {cdir}, expected {wd}')
    require(os.path.realpath(file) == os.path.realpath(os.path.join(cdir, 'coeffs.npy')), lambda: f'file {file}')
    shp = tuple(c['xshape']) + (c['nv'],)
    close(core.load_npy(os.path.join(cdir, 'ltm.npy')), x.mean(axis=0).reshape(shp), 'mean saved with the coefficients',
          rtol=1e-6 if one else 1e-12, scale=np.abs(x).max())
    close(core.load_npy(os.path.join(cdir, 'modes_r.npy')), phi.reshape(shp + (-1,)), 'modes saved with the coefficients',
          rtol=1e-6 if one else 0)
    p = core.load_yaml(os.path.join(cdir, 'params_coeffs.yaml'))
    described(c, p, kw, freq, ids)
    # optimality, independently of the solver: the weighted residual is orthogonal to every mode kept
    if rank and c['tol'] <= 1e-10 and cond < 1e6 and not one and not dropped(phi, w, rank):
        res = y - phi @ got
        o = phi.conj().T @ (w[:, None] * res)
        nrm = np.sqrt(np.sum(np.abs(y) ** 2 * w[:, None], axis=0).max())
        require(np.abs(o).max() <= max(1e-9, 1e-13 * cond) * max(nrm, 1e-300) * max(1, np.sqrt(np.abs(phi.conj().T @ (w[:, None] * phi)).max())),
                lambda: f'the residual is not orthogonal to the modes: {np.abs(o).max():.3g}')
    ctx.nontrivial(phi.shape[1] >= 2 and rank >= 1 and np.abs(y).max() > 0)


SUBS = [
    Sub('large', lambda: proj_cases(large=gen.LARGE), coeffs, quick=60, thorough=800),
    Sub('coefficients', lambda: proj_cases(), coeffs, quick=500, thorough=8000),
    Sub('coefficients2', lambda: proj_cases().map(lambda c: dict(c, seed=c['seed'] + 7, sel='all' if c['sel'] == 'onlyone' else c['sel'])),
        coeffs, quick=500, thorough=8000),
]

