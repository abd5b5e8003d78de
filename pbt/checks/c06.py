"""C06: reconstruction = mean + modes x coefficients at the requested times; recovery and monotonicity."""
import os
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, drive, core
from pbt.core import Sub, close, require, equal
from pbt.checks import c05

PROPERTY = 'C06'
RULE = ('random fits, projections as for C05, and reconstructions at all documented selections of times, from stored or '
        'passed coefficients; non-trivial = at least two different times and non-zero coefficients')
ASSUMPTIONS = []


@st.composite
def rec_cases(draw, large=None):
    c = draw(c05.proj_cases(large=large))
    long = c['other'] and draw(st.integers(0, 4)) == 4
    if long:
        c['nt2'] = draw(st.integers(90, 420))        # enough for every hundredth time
    nt = c['nt2']
    c['tidx'] = draw(st.one_of(st.sampled_from(['all', 'half', 'quarter', 'tenth', 'hundredth', 'ALL', 'Half', None]),
                               st.lists(st.integers(0, nt - 1), min_size=1, max_size=12),
                               st.sampled_from(['tenth', 'hundredth', 'quarter']) if long else
                               st.lists(st.integers(0, nt - 1), min_size=1, max_size=12)))
    c['pass'] = draw(st.sampled_from(['stored', 'stored', 'passed', 'changed']))
    c['file'] = draw(st.sampled_from([None, None, 'rec', 'other_name', 'rec.v1']))
    c['rsub'] = draw(st.sampled_from([None, None, 'sub']))
    return c


def times(t, nt):
    if t is None:
        return None
    if isinstance(t, str):
        return list(range(0, nt, dict(all=1, half=2, quarter=4, tenth=10, hundredth=100)[t.lower()]))
    return list(t)


def reconstruct(c, s, cdir, tidx, coeffs=None, **kw):
    import pyspod.spod.utils as us
    if c05.by_method(c) and coeffs is None and not kw:
        return s.compute_reconstruction(coeffs_dir=cdir, time_idx=tidx)
    if c['single']:
        kw = dict(kw, dtype='single')
    return us.compute_reconstruction(coeffs_dir=cdir, time_idx=tidx, coeffs=coeffs, **kw)


def rec(c, ctx):
    c05.lab(c, ctx)
    ctx.label('times=' + ('list' if isinstance(c['tidx'], list) else str(c['tidx'])), 'coeffs=' + c['pass'])
    s = drive.standard(c, ctx.dir())
    kw, ids = c05.selection(c, np.asarray(s.freq))
    raw, x = c05.other_data(c)
    nt = len(x)
    file, cdir = c05.project(c, s, raw, kw)
    a = core.load_npy(file)
    phi, w = c05.basis(c, s, ids)
    require(a.shape == (phi.shape[1], nt), lambda: f'coefficients of shape {a.shape}')
    mean = x.reshape(nt, -1).mean(axis=0)
    passed = None
    if c['pass'] == 'passed':
        passed = a.copy()
    elif c['pass'] == 'changed':
        a = a * 2 + 1j * np.arange(nt)
        passed = a.copy()
    k = {}
    if c['file']:
        k['filename'] = c['file']
    if c['rsub']:
        k['savedir'] = c['rsub']
    before = drive.snapshot_tree(s.savedir_sim)
    rfile, rdir = reconstruct(c, s, cdir, c['tidx'], passed, **k)
    after = drive.snapshot_tree(s.savedir_sim)
    rel = os.path.relpath(rfile, s.savedir_sim)
    require(os.path.realpath(rfile) == os.path.realpath(os.path.join(cdir, c['rsub'] or '', (c['file'] or 'reconstructed') + '.npy')),
            lambda: f'reconstruction saved in {rfile}')
    for n, b in before.items():
        require(n == rel or after.get(n) == b, f'{n} changed by the reconstruction')
    if c05.by_method(c):
        require(os.path.realpath(s.file_coeffs) == os.path.realpath(file), lambda: f'file_coeffs {s.file_coeffs}')
        if passed is None and not k:
            require(os.path.realpath(s.file_dynamics) == os.path.realpath(rfile), lambda: f'file_dynamics {s.file_dynamics}')
    if passed is not None:
        equal(passed, a, 'coefficients after the reconstruction')
    got = core.load_npy(rfile, 'reconstruction')
    full = (mean[:, None] + phi @ a).T.reshape((nt,) + tuple(c['xshape']) + (c['nv'],))
    sc = np.abs(mean).max() + (np.abs(phi) @ np.abs(a)).max()
    t = times(c['tidx'], nt)
    if t is None:
        require(len(got) >= 2, f'{len(got)} times')
        close(got[0], full[0], 'default reconstruction, first time', rtol=1e-5 if c['single'] else 1e-11, scale=sc)
        close(got[-1], full[-1], 'default reconstruction, last time', rtol=1e-5 if c['single'] else 1e-11, scale=sc)
    else:
        close(got, full[t], f'reconstruction at the requested times {t[:6]}', rtol=1e-5 if c['single'] else 1e-11, scale=sc)
    ctx.nontrivial((t is None or len(set(t)) >= 2) and np.abs(a).max() > 0)


@st.composite
def span_cases(draw):
    c = draw(gen.spod_cases(dtypes=('double',), f32_ok=False, max_nt=70, n_dft_max=12, normalize_data_ok=False,
                            extra_points=-20, max_points=10, nvs=(1, 2), kinds=('noise', 'waves'), weights=('none', 'rand')))
    c['amp'] = draw(st.sampled_from([1.0, 1.0, 1e-7, 1e6]))
    c['offset'] = draw(st.sampled_from([0.0, 3.0]))
    c['n_modes_save'] = gen.n_blocks_of(c)
    c['svd'] = draw(st.booleans())
    return c


def span(c, ctx):
    """all stored modes of all frequencies span the fluctuations: the data come back; nested bands never do worse"""
    import pyspod.spod.utils as us
    s = drive.standard(c, ctx.dir())
    x = gen.full_data(c)
    nt = len(x)
    X = x.reshape(nt, -1)
    w = core.load_npy(os.path.join(s.savedir_sim, 'weights.npy')).reshape(-1)
    nf = len(s.freq)
    errs = []
    Y = X - X.mean(axis=0)
    tot = np.sum(np.abs(Y) ** 2 * w)
    grow = [[k for k in range(nf)][:n] for n in sorted({1, max(1, nf // 2), nf})]
    phi, _ = c05.basis(c, s, list(range(nf)))
    ls = c05.least_squares(phi, w, Y.T, 1e-10)
    if ls is None or ls[2] > 1e8:
        raise core.Skip
    for ids in grow:
        f, d = us.compute_coeffs_op(gen.make_data(c), results_dir=s.savedir_sim, freq_idx=ids, svd=c['svd'])
        r, _ = us.compute_reconstruction(coeffs_dir=d, time_idx='all')
        Z = core.load_npy(r).reshape(nt, -1)
        errs.append(np.sum(np.abs(Z - X) ** 2 * w) / max(tot, 1e-300))
    ctx.label('spans' if ls[1] == X.shape[1] else 'does not span')
    for a, b in zip(errs, errs[1:]):
        require(b <= a + 1e-8, lambda: f'the weighted error grows with the band: {errs}')
    require(errs[0] <= 1 + 1e-8, lambda: f'relative error {errs[0]} above that of the mean alone')
    if ls[1] == X.shape[1]:
        require(errs[-1] < 1e-12 * ls[2] + 1e-18, lambda: f'the modes span all fields, but the data come back with relative error {errs[-1]}')
    ctx.nontrivial(ls[1] == X.shape[1])


def badtime(c, ctx):
    import pyspod.spod.utils as us
    s = drive.standard(c, ctx.dir())
    f, d = us.compute_coeffs_op(gen.make_data(c), results_dir=s.savedir_sim)
    core.raises(TypeError, lambda: us.compute_reconstruction(coeffs_dir=d, time_idx=c['bad']), f'time_idx={c["bad"]!r}')
    os.remove(f)
    core.raises(Exception, lambda: us.compute_reconstruction(coeffs_dir=d, time_idx='all'), 'missing coefficients')
    ctx.nontrivial()


SUBS = [
    Sub('large', lambda: rec_cases(large=gen.LARGE), rec, quick=60, thorough=800),
    Sub('times', rec_cases, rec, quick=450, thorough=8000),
    Sub('span', span_cases, span, quick=250, thorough=4000),
    Sub('invalid', lambda: st.builds(lambda c, b: dict(c, bad=b), gen.spod_cases(max_nt=30, n_dft_max=8, dtypes=('double',)),
                                     st.sampled_from([3, 2.5, {'a': 1}])), badtime, quick=30, thorough=300),
]
