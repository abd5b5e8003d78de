"""C27: convolution coefficients are the local spectral projections; their reconstruction."""
import os
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, drive, core
from pbt.core import Sub, close, require, equal
from pbt.checks import c05
from pbt.checks.c06 import times

PROPERTY = 'C27'
RULE = ('random fits; convolution coefficients of the fitted or of other data, longer or shorter than a block, for all, a band, '
        'or a list of frequencies and modes, against the projection of the windowed transform (sums of exponentials) of the '
        'block around each time; reconstructions at all documented selections of times; linearity; non-trivial = a time '
        'away from the ends and two coefficients')
ASSUMPTIONS = ['the correction near the ends is known up to two samples of the window']


@st.composite
def cases(draw, large=None):
    c = draw(c05.proj_cases(large=large))
    c['nt2'] = draw(st.one_of(st.integers(2, 300 if large else 40), st.integers(2, c['n_dft']))) if c['other'] else c['nt']
    nt = c['nt2']
    c['tidx'] = draw(st.one_of(st.sampled_from(['all', 'half', 'quarter', 'tenth', 'hundredth', 'ALL', 'Half', None]),
                               st.lists(st.integers(0, nt - 1), min_size=1, max_size=12)))
    c['pass'] = draw(st.sampled_from(['stored', 'stored', 'passed', 'changed']))
    c['rsub'] = draw(st.sampled_from([None, None, 'sub']))
    c['file'] = draw(st.sampled_from([None, None, 'rec']))
    c['a'], c['b'] = draw(st.sampled_from([(1.0, 1.0), (2.0, -0.5), (-3.0, 0.1)]))
    c['single'] = draw(st.integers(0, 7)) == 0
    return c


def blocks(x, n_dft):
    """windowed transform of the block around each time: (n_dft, nt, points)"""
    nt = len(x)
    h = -(-n_dft // 2)
    w = ref.hamming(n_dft)
    p = np.zeros((nt + 2 * h,) + x.shape[1:], dtype=complex)
    p[h:h + nt] = x
    k = np.arange(n_dft)
    E = np.exp(-2j * np.pi * (np.outer(k, k) % n_dft) / n_dft)
    out = np.zeros((n_dft, nt) + x.shape[1:], dtype=complex)
    for t in range(nt):
        b = p[t:t + n_dft]
        out[:, t] = np.tensordot(E[:, :len(b)], b * w[:len(b), None], axes=(1, 0))
    return out


def correction(n, nt, t):
    """square root of the sum of the window over that of its part inside the record, with two samples of slack at the ends;
    a record shorter than the window may count as missing at one end or at both"""
    w = ref.hamming(n)
    h = -(-n // 2)
    left, right = max(0, h - t), max(0, n - (h + nt - t))
    part = lambda i, j: np.sqrt(w.sum() / max(w[min(i, n - 1):max(n - j, 1)].sum(), w.min()))
    few = [part(max(left - 2, 0), 0)] * (left > 0) + [part(0, max(right - 2, 0))] * (right > 0) or [1.0]
    return min(few + [1.0] * (left > 0 and right > 0 and min(left, right) <= 2)), part(left + 2, right + 2)


def coeffs(c, s, raw, kw, sub):
    import pyspod.spod.utils as us
    if c.get('midx') is not None:
        kw = dict(kw, modes_idx=gen.indices(list(c['midx']), c))
    if c['single']:
        kw = dict(kw, dtype='single')
    return us.compute_coeffs_conv(raw, results_dir=s.savedir_sim, savedir=sub, **kw)


def check(c, ctx):
    c05.lab(c, ctx)
    s = drive.standard(c, ctx.dir())
    kw, ids = c05.selection(c, np.asarray(s.freq))
    raw, x = c05.other_data(c)
    nt, n = len(x), c['n_dft']
    xin = c05.contain(c, raw)
    keep = np.array(raw, copy=True)
    fit = drive.snapshot_tree(s.savedir_sim)
    file, cdir = coeffs(c, s, xin, kw, c['sub'])
    equal(np.asarray(xin), keep, 'data after the coefficients')
    for k, v in fit.items():
        p = os.path.join(s.savedir_sim, k)
        require(os.path.isfile(p) and open(p, 'rb').read() == v, f'{k} changed by the coefficients')
    lo, hi = min(ids), max(ids)
    require(os.path.realpath(cdir) == os.path.realpath(os.path.join(s.savedir_sim, f'coeffs_{lo}_{hi}', c['sub'] or '')),
            lambda: f'coefficients in {cdir}')
    require(os.path.realpath(file) == os.path.realpath(os.path.join(cdir, 'coeffs.npy')), lambda: f'file {file}')
    phi, w = c05.basis(c, s, ids)
    nm = phi.shape[1] // len(ids)
    got = core.load_npy(file, 'coefficients')
    core.same_shape(got, np.empty((len(ids), nt, nm)), 'coefficients')
    X = x.reshape(nt, -1)
    mean = X.mean(axis=0)
    Q = blocks(X - mean, n)
    want = np.stack([np.einsum('pm,tp->tm', phi[:, i * nm:(i + 1) * nm].conj() * w[:, None], Q[f]) for i, f in enumerate(ids)])
    eps = 1e-4 if c['single'] else 1e-10
    # size of the terms summed
    sc = np.abs(phi).max() * w.max() * (np.abs(X - mean).max() + 1e-15 * np.abs(X).max()) * n * X.shape[1]
    h = -(-n // 2)
    inner = [t for t in range(nt) if h <= t < nt - h]
    require(np.all(np.isfinite(got)), 'coefficients not finite')
    for t in range(nt):
        if t in inner:
            close(got[:, t], want[:, t], f'coefficients at time {t} of {nt}', rtol=eps, atol=eps * sc * 1e-2)
        elif np.abs(want[:, t]).max() > 1e-6 * sc:
            k = np.vdot(want[:, t], got[:, t]) / np.vdot(want[:, t], want[:, t])
            require(k.real > 0 and abs(k.imag) <= 1e-3 * k.real if c['single'] else k.real > 0 and abs(k.imag) <= 1e-8 * k.real,
                    lambda: f'correction {k!r} at time {t} of {nt}')
            a, b = correction(n, nt, t)
            require(a * (1 - 1e-3) <= k.real <= b * (1 + 1e-3), lambda: f'correction {k.real} at time {t} of {nt}, between {a} and {b} expected')
            close(got[:, t], k.real * want[:, t], f'coefficients at time {t} of {nt}, up to a factor', rtol=10 * eps, atol=eps * sc * 1e-2 * k.real)
    # what is saved with them
    shp = tuple(c['xshape']) + (c['nv'],)
    close(core.load_npy(os.path.join(cdir, 'ltm.npy')), mean.reshape(shp), 'mean saved with the coefficients', rtol=eps, scale=np.abs(X).max())
    saved = core.load_npy(os.path.join(cdir, 'modes_r.npy'))
    close(saved, np.moveaxis(phi.reshape(-1, len(ids), nm), 0, 0).reshape(shp + (len(ids), nm)), 'modes saved with the coefficients', rtol=eps)
    y = core.load_yaml(os.path.join(cdir, 'params_coeffs.yaml'))
    for k, v in dict(n_freq_r=len(ids), freq_idx_lb=lo, freq_idx_ub=hi).items():
        require(y.get(k) == v, lambda: f'{k} = {y.get(k)!r} saved, {v} used')
    c05.described(c, y, kw, np.asarray(s.freq), ids)
    # reconstruction
    import pyspod.spod.utils as us
    a = got
    passed = None
    if c['pass'] == 'passed':
        passed = a.copy()
    elif c['pass'] == 'changed':
        a = a * 2 + 1j * np.arange(nt)[:, None]
        passed = a.copy()
    k = dict(filename=c['file']) if c['file'] else {}
    if c['rsub']:
        k['savedir'] = c['rsub']
    rfile, _ = us.compute_reconstruction(coeffs_dir=cdir, time_idx=c['tidx'], coeffs=passed, **k)
    require(os.path.realpath(rfile) == os.path.realpath(os.path.join(cdir, c['rsub'] or '', (c['file'] or 'reconstructed') + '.npy')),
            lambda: f'reconstruction in {rfile}')
    if passed is not None:
        equal(passed, a, 'coefficients after the reconstruction')
    rec = core.load_npy(rfile, 'reconstruction')
    A = np.moveaxis(a, 2, 1).reshape(len(ids) * nm, nt)
    full = (mean[:, None] + phi @ A).T.reshape((nt,) + shp)
    rs = np.abs(X).max() + (np.abs(phi) @ np.abs(A)).max()
    t = times(c['tidx'], nt)
    reps = 1e-4 if c['single'] else 1e-11
    if t is None:
        close(rec[0], full[0], 'default reconstruction, first time', rtol=reps, scale=rs)
        close(rec[-1], full[-1], 'default reconstruction, last time', rtol=reps, scale=rs)
    else:
        close(rec, full[t], f'reconstruction at the requested times {t[:6]}', rtol=reps, scale=rs)
    ctx.label('inner' if inner else 'ends only', f'single={c["single"]}', 'odd' if n % 2 else 'even')
    ctx.nontrivial(bool(inner) and got[:, 0].size > 1 and np.abs(want).max() > 1e-6 * sc)


def linear(c, ctx):
    s = drive.standard(c, ctx.dir())
    kw, ids = c05.selection(c, np.asarray(s.freq))
    c = dict(c, single=False, stored=None)
    raw, _ = c05.other_data(dict(c, other=True))
    raw2, _ = c05.other_data(dict(c, other=True, seed=c['seed'] + 3))
    f = lambda r, n: core.load_npy(coeffs(c, s, r, kw, n)[0])
    x, y = f(raw, 'x'), f(raw2, 'y')
    z = f(c['a'] * raw + c['b'] * raw2, 'z')
    close(z, c['a'] * x + c['b'] * y, 'coefficients of a sum', rtol=1e-9, scale=np.abs(c['a']) * np.abs(x).max() + np.abs(c['b']) * np.abs(y).max())
    # a constant added to the data has no part in them
    close(f(raw + 7.0 * np.abs(raw).max(), 'w'), x, 'coefficients of shifted data', rtol=1e-8, scale=np.abs(x).max())
    # one frequency alone
    i = c['seed'] % len(ids)
    one = core.load_npy(coeffs(c, s, raw, dict(freq_idx=[ids[i]]), 'v')[0])
    close(one[0], x[i], f'coefficients of frequency {ids[i]} alone', rtol=1e-12, scale=np.abs(x).max())
    ctx.label('sel=' + c['sel'])
    ctx.nontrivial(x.shape[1] > c['n_dft'])


SUBS = [Sub('coefficients', cases, check, quick=600, thorough=4000, slots=2),
        Sub('linear', cases, linear, quick=150, thorough=1000),
        Sub('large', lambda: cases(large=gen.LARGE), check, quick=50, thorough=200, case_limit=200)]
