"""C01: SPOD eigenvalues are those of the Welch-estimated cross-spectral density."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, drive, core
from pbt.core import Sub, close, require

PROPERTY = 'C01'
RULE = ('random data sets (noise/waves/trend/integers/spiky, real and complex, 1-3 space dimensions, 1-3 variables) '
        'and random spectral configurations; non-trivial = at least 2 blocks and the leading eigenvalue is positive '
        'at some frequency. Laws: the same under scaling, relabelling of points, one- versus two-sided estimate.')
ASSUMPTIONS = ['numpy/scipy/LAPACK are trusted', 'points x variables exceed the number of blocks by 2']


def labels(c, ctx):
    for k in ('mean_type', 'fullspectrum', 'normalize_weights', 'normalize_data', 'dtype', 'w', 'complex'):
        ctx.label(f'{k}={str(c[k]).lower()}')
    ctx.label(f'xdim={len(c["xshape"])}', f'nv={c["nv"]}', 'odd' if c['n_dft'] % 2 else 'even',
              'overlap' if gen.n_overlap_of(c) else 'no-overlap')


def tols(c):
    # single precision carries the (possibly large) mean; relative to the largest eigenvalue overall
    return (2e-4, 2e-4) if c['dtype'] == 'single' else (1e-9, 1e-11)


def against_reference(c, ctx):
    labels(c, ctx)
    d = ctx.dir()
    R = drive.reference(c)
    if c['normalize_data']:
        # a block constant at a point is not divided: next to points divided by a large variance, its round-off counts
        x = gen.make_data(c).astype(complex)
        eps = np.finfo(np.float32 if c['dtype'] == 'single' else float).eps
        flat = any(x[o:o + c['n_dft']].var(axis=0).min() < 1e-12 * max(1, np.abs(x).max()) for o in R.offsets)
        if flat and np.abs(x).max() ** 2 * eps > 1e-4:
            raise core.Skip
    s = drive.standard(c, d)
    e = np.asarray(s.eigs)
    core.same_shape(e, R.eigs, 'eigenvalues')
    rt, rg = tols(c)
    amax = R.eigs.max()
    off = max(1.0, abs(c['offset'])) if c['dtype'] == 'single' else 1.0
    # per frequency: relative to the largest eigenvalue of that frequency, plus a whole-spectrum floor
    scale = R.eigs[:, :1] * rt * off + amax * rg * off * off
    close(e, R.eigs, 'eigenvalues against the Welch reference', rtol=1.0, scale=np.broadcast_to(scale, e.shape))
    require(np.all(np.diff(e, axis=1) <= 1e-9 * amax + np.zeros_like(e[:, 1:])) if c['dtype'] != 'single'
            else np.all(np.diff(e, axis=1) <= 1e-4 * amax), 'eigenvalues are not sorted in descending order')
    require(np.all(e >= 0), 'negative eigenvalue')
    ctx.nontrivial(amax > 0)


def direct_csd(c, ctx):
    """small cases: the eigenvalues of the full space-by-space CSD, not of the snapshot matrix"""
    labels(c, ctx)
    s = drive.standard(c, ctx.dir())
    R = drive.reference(c)
    for f in range(R.nf):
        want = R.direct_eigs(f) * R.fac[f]
        close(np.asarray(s.eigs)[f], want, f'eigenvalues of the CSD at frequency {f}', rtol=1e-9,
              atol=1e-11 * R.eigs.max())
    ctx.nontrivial(R.eigs.max() > 0)


@st.composite
def law_cases(draw):
    c = draw(gen.spod_cases(dtypes=('double',), max_nt=90, n_dft_max=20))
    c['law'] = draw(st.sampled_from(['scale', 'wscale', 'permute', 'shift', 'swapvars', 'dt', 'reverse']))
    c['k'] = draw(st.sampled_from([2.0, -1.0, 0.5, 7.0]))
    c['pseed'] = draw(st.integers(0, 9999))
    return c


def laws(c, ctx):
    labels(c, ctx)
    ctx.label('law=' + c['law'])
    x = gen.full_data(c)
    w = gen.full_weights(c)
    mk = lambda a: dict(weights=a.copy(), weights_name='x')
    base = dict(c, squeeze=False)
    s0 = drive.standard(base, ctx.dir(), data=[x.copy()], weights=mk(w))
    e0 = np.asarray(s0.eigs)
    fac = np.ones(len(e0))
    c2, x2, w2 = dict(base), x.copy(), w.copy()
    law = c['law']
    if law == 'scale':
        x2 = x2 * c['k']
        p = 2
        if c['normalize_data']:
            p -= 4
        if c['normalize_weights']:
            p -= 2
        fac = fac * abs(c['k']) ** p
        if c['normalize_data']:
            # the variance floor is absolute: skip data close to it
            if np.min(np.var(x, axis=0)) * min(1, c['k'] ** 2) < 1e-9:
                raise core.Skip
            ref0 = drive.reference(base)
            # a block may have a (nearly) constant point even so
            for o in ref0.offsets:
                if x[o:o + c['n_dft']].var(axis=0).min() * min(1, c['k'] ** 2) < 1e-9:
                    raise core.Skip
    elif law == 'wscale':
        w2 = w2.astype(float) * abs(c['k'])
        fac = fac * abs(c['k'])
    elif law == 'permute':
        n = int(np.prod(c['xshape']))
        perm = np.random.RandomState(c['pseed']).permutation(n)
        x2 = x.reshape(len(x), n, c['nv'])[:, perm].reshape(x.shape)
        w2 = w.reshape(n, c['nv'])[perm].reshape(w.shape)
    elif law == 'shift':
        # a constant field does not matter when the long-time mean is removed
        if c['mean_type'].lower() == 'zero':
            raise core.Skip
        x2 = x2 + c['k'] * c['amp']
    elif law == 'swapvars':
        x2 = np.ascontiguousarray(x2[..., ::-1]); w2 = np.ascontiguousarray(w2[..., ::-1])
    elif law == 'dt':
        c2['dt'] = c['dt'] * abs(c['k'])
    elif law == 'reverse':
        # reversed space axes
        ax = tuple(range(1, x.ndim - 1))
        x2 = np.flip(x2, ax).copy(); w2 = np.flip(w2, tuple(a - 1 for a in ax)).copy()
    s1 = drive.standard(c2, ctx.dir(), data=[x2], weights=mk(w2))
    want = e0 * fac[:, None]
    close(np.asarray(s1.eigs), want, f'eigenvalues under {law}', rtol=1e-8, atol=1e-10 * want.max())
    if law == 'dt':
        close(np.asarray(s1.freq) * abs(c['k']), np.asarray(s0.freq), 'frequencies under a change of time step',
              rtol=1e-12)
    ctx.nontrivial(e0.max() > 0)


@st.composite
def twosided_cases(draw):
    c = draw(gen.spod_cases(dtypes=('double',), complex_ok=False, max_nt=90, n_dft_max=24))
    return c


def twosided(c, ctx):
    """real data: the one-sided spectrum holds, bin by bin, the energy of the two-sided spectrum, and the two-sided
    one is symmetric about zero frequency"""
    labels(c, ctx)
    n = c['n_dft']
    s1 = drive.standard(dict(c, fullspectrum=False), ctx.dir())
    s2 = drive.standard(dict(c, fullspectrum=True), ctx.dir())
    e1, e2 = np.asarray(s1.eigs), np.asarray(s2.eigs)
    core.same_shape(e1, np.empty((n // 2 + 1, gen.n_blocks_of(c))), 'one-sided spectrum')
    core.same_shape(e2, np.empty((n, gen.n_blocks_of(c))), 'two-sided spectrum')
    tol = 1e-10 * e2.max()
    for k in range(1, n):
        close(e2[k], e2[n - k], f'two-sided spectrum, bins {k} and {n - k}', rtol=1e-8, atol=tol)
    for k in range(n // 2 + 1):
        both = e2[k] if (k == 0 or 2 * k == n) else e2[k] + e2[n - k]
        close(e1[k], both, f'one-sided bin {k} against the two-sided bins', rtol=1e-8, atol=tol)
    close(e1.sum(), e2.sum(), 'total energy', rtol=1e-8)
    ctx.nontrivial(e2.max() > 0)


SUBS = [
    Sub('reference', lambda: gen.spod_cases(), against_reference, quick=1000, thorough=12000),
    Sub('large', lambda: gen.spod_cases(large=gen.LARGE), against_reference, quick=80, thorough=800),
    Sub('direct', lambda: gen.spod_cases(dtypes=('double',), max_nt=60, n_dft_max=12), direct_csd, quick=300, thorough=4000),
    Sub('laws', law_cases, laws, quick=600, thorough=8000),
    Sub('sides', twosided_cases, twosided, quick=250, thorough=3000),
]
