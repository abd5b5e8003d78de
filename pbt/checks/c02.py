"""C02: SPOD modes are orthonormal in the weighted inner product and diagonalise the CSD."""
import os
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, drive, core
from pbt.core import Sub, close, require, fail

PROPERTY = 'C02'
RULE = ('random data and configurations as for C01, including fewer points than blocks (rank-deficient) and exactly '
        'repeated eigenvalues; non-trivial = at least two stored modes with non-negligible eigenvalue at some frequency')
ASSUMPTIONS = ['numpy/LAPACK are trusted']


def judge_modes(phi, eraw, R, f, dtype, what, ctx=None, lam_rel=None):
    """phi (n, m) stored modes; eraw (nb,) reference eigenvalues without one-sided factor"""
    eps = 3e-7 if dtype == 'single' else 1e-14
    lam_rel = (1e-3 if dtype == 'single' else 1e-8) if lam_rel is None else lam_rel
    require(np.all(np.isfinite(phi)), f'{what}: non-finite mode')
    l0 = eraw[0]
    if l0 <= 0:
        return 0
    m = phi.shape[1]
    big = [i for i in range(m) if eraw[i] > lam_rel * l0]
    P = phi[:, big]
    G = P.conj().T @ (R.W[:, None] * P)
    lam = eraw[big]
    amp = np.sqrt(l0 / np.minimum.outer(lam, lam)) * np.sqrt(l0 / np.maximum.outer(lam, lam))
    tol = 200 * eps * len(eraw) * amp + 30 * eps
    D = np.abs(G - np.eye(len(big)))
    if np.any(D > tol):
        i, j = np.unravel_index(np.argmax(D / tol), D.shape)
        fail(f'{what}: <phi_{big[i]}, phi_{big[j]}> = {G[i, j]!r} (allowed deviation {tol[i, j]:.2g})')
    # eigen-relation  S W phi = lambda phi
    A = R.csd_apply(f, P) - P * lam[None, :]
    nrm = np.sqrt(np.einsum('ij,i->j', np.abs(A) ** 2, R.W))
    # rounding of the transform is relative to the strongest frequency, not to this one
    emax = max(float(np.max(getattr(R, 'eigs_raw', l0))), l0)
    lim = 300 * eps * len(eraw) * l0 * np.sqrt(l0 / lam) + 30 * eps * np.sqrt(l0 * emax)
    if np.any(nrm > lim):
        i = int(np.argmax(nrm / lim))
        fail(f'{what}: mode {big[i]} is no eigenvector of the CSD: residual {nrm[i]:.3g}, eigenvalue {lam[i]:.3g}, '
             f'allowed {lim[i]:.2g}')
    for i in range(m):
        if i not in big:
            n2 = float(np.sum(np.abs(phi[:, i]) ** 2 * R.W))
            require(n2 < 4.0, f'{what}: mode {i} with negligible eigenvalue has norm^2 {n2:.3g}')
    return len(big)


def inconditioned(c):
    # float32 arithmetic on data dominated by a mean: the reference and the code round differently
    return c['dtype'] == 'single' and (abs(c['offset']) > 5 or c['normalize_data'] or c['w'] == 'wide')


def lab(c, ctx):
    for k in ('mean_type', 'fullspectrum', 'normalize_weights', 'normalize_data', 'dtype', 'w', 'complex'):
        ctx.label(f'{k}={str(c[k]).lower()}')
    ctx.label(f'xdim={len(c["xshape"])}', f'nv={c["nv"]}')


def modes(c, ctx):
    if inconditioned(c):
        raise core.Skip
    lab(c, ctx)
    d = ctx.dir()
    s = drive.standard(c, d)
    R = drive.reference(c)
    rdir = s.savedir_sim
    n = min(c['n_modes_save'], R.nb)
    emax = R.eigs_raw.max()
    for f in range(R.nf):
        m = core.load_npy(os.path.join(rdir, 'modes', f'freq_idx_{f:08d}.npy'), 'modes')
        core.same_shape(m, np.empty(tuple(c['xshape']) + (c['nv'], n)), f'modes of frequency {f}')
        if R.eigs_raw[f, 0] < 1e-12 * emax or (c['dtype'] == 'single' and R.eigs_raw[f, 0] < 1e-4 * emax):
            require(np.all(np.isfinite(m)), f'frequency {f}: non-finite mode')
            continue
        k = judge_modes(m.reshape(-1, n).astype(complex), R.eigs_raw[f], R, f, c['dtype'], f'frequency {f}')
        ctx.nontrivial(k >= 2)
        g = s.get_modes_at_freq(freq_idx=f)
        core.equal(np.asarray(g), m, f'modes returned for frequency {f}')


@st.composite
def deficient(draw):
    """fewer points than blocks, repeated blocks, constant or zero data"""
    c = draw(gen.spod_cases(dtypes=('double',), f32_ok=False, normalize_data_ok=False, max_nt=100, extra_points=-9,
                            weights=('none', 'rand'), kinds=('noise', 'waves'), n_dft_max=16))
    c['normalize_weights'] = False
    c['amp'] = 1.0
    c['form'] = draw(st.sampled_from(['few', 'rank1', 'repeat', 'zero', 'zeroblocks']))
    if c['form'] == 'few':
        c['xshape'] = draw(st.sampled_from([[1], [2], [3], [1, 2], [2, 1, 2]]))
    return c


def deform(c):
    x = gen.full_data(c)
    n = c['n_dft']
    if c['form'] == 'rank1':
        x = np.multiply.outer(x.reshape(len(x), -1)[:, 0], x[0])
    elif c['form'] == 'repeat':
        x = x[np.arange(len(x)) % n]
    elif c['form'] == 'zero':
        x = x * 0
    elif c['form'] == 'zeroblocks':
        x[:len(x) // 2] = 0
    return x


def defi(c, ctx):
    ctx.label('form=' + c['form'])
    x = deform(c)
    s = drive.standard(dict(c, squeeze=False), ctx.dir(), data=[x.copy()])
    R = ref.Spod(x, gen.full_weights(c), c['dt'], c['n_dft'], gen.n_overlap_of(c), c['mean_type'],
                 bool(np.isreal(x).all()), c['fullspectrum'])
    emax = R.eigs_raw.max()
    e = np.asarray(s.eigs)
    close(e, R.eigs, 'eigenvalues', rtol=1e-9, atol=1e-300 + 1e-11 * emax)
    for f in range(R.nf):
        phi = drive.modes_of(s.savedir_sim, f, c)
        require(np.all(np.isfinite(phi)), f'frequency {f}: non-finite mode')
        if R.eigs_raw[f, 0] < 1e-12 * emax or emax == 0:
            continue
        judge_modes(phi, R.eigs_raw[f], R, f, 'double', f'frequency {f}', lam_rel=1e-7)
    ctx.nontrivial(emax > 0 and int(np.prod(c['xshape'])) * c['nv'] < R.nb or c['form'] != 'few')


@st.composite
def repeated(draw):
    return dict(seed=draw(st.integers(0, 99999)), nb=draw(st.integers(2, 8)), n_dft=draw(st.integers(4, 16)),
                groups=draw(st.lists(st.sampled_from([1.0, 0.5, 0.1]), min_size=8, max_size=8)),
                extra=draw(st.integers(0, 20)), w=draw(st.booleans()), full=draw(st.booleans()))


def rep(c, ctx):
    """blocks that mix orthonormal fields by an orthogonal matrix: the eigenvalues come in exactly repeated groups"""
    rng = np.random.RandomState(c['seed'])
    nb, nd = c['nb'], c['n_dft']
    nx = nb + c['extra']
    U = np.linalg.qr(rng.standard_normal((nb, nb)))[0]
    w = rng.uniform(0.3, 2, nx) if c['w'] else np.ones(nx)
    E = np.linalg.qr(rng.standard_normal((nx, nx)))[0][:nb] / np.sqrt(w)
    g = rng.standard_normal(nd)
    amp = np.array(c['groups'][:nb])
    x = np.concatenate([g[:, None] * (U[b] @ (amp[:, None] * E))[None] for b in range(nb)])
    cc = dict(seed=0, nt=nb * nd, xshape=[nx], nv=1, n_dft=nd, dt=1.0, mean_type='zero', overlap=0,
              n_modes_save=nb, fullspectrum=c['full'])
    s = drive.standard(cc, ctx.dir(), data=[x], weights=dict(weights=w, weights_name='w'))
    R = ref.Spod(x[..., None], w[:, None], 1.0, nd, 0, 'zero', True, c['full'])
    emax = R.eigs_raw.max()
    for f in range(R.nf):
        if R.eigs_raw[f, 0] < 1e-12 * emax:
            continue
        judge_modes(drive.modes_of(s.savedir_sim, f, cc), R.eigs_raw[f], R, f, 'double', f'frequency {f}')
    ctx.nontrivial(len(set(c['groups'][:nb])) < nb)


@st.composite
def ortho_cases(draw):
    c = draw(gen.spod_cases(max_nt=80, n_dft_max=16, dtypes=('double',)))
    nf = len(ref.freq_axis(c['n_dft'], 1.0, not c['complex'], c['fullspectrum']))
    n = min(c['n_modes_save'], gen.n_blocks_of(c))
    c['q'] = [[draw(st.integers(0, nf - 1)), draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))] for _ in range(4)]
    c['tamper'] = draw(st.sampled_from(['no', 'no', 'imag', 'real', 'scale', 'shrink', 'zero', 'phase']))
    return c


def ortho(c, ctx):
    """the orthogonality utility reports the weighted inner product of the stored modes, and its verdict follows it"""
    import pyspod.spod.utils as us
    ctx.label('tamper=' + c['tamper'])
    d = ctx.dir()
    s = drive.standard(c, d)
    w = drive.reference(c).W
    for f, i, j in c['q']:
        p = os.path.join(s.savedir_sim, 'modes', f'freq_idx_{f:08d}.npy')
        if c['tamper'] != 'no':
            m = core.load_npy(p)
            if c['tamper'] == 'imag' and i != j:
                m[..., j] = m[..., j] + 0.3j * m[..., i]
            elif c['tamper'] == 'real' and i != j:
                m[..., j] = m[..., j] - 0.4 * m[..., i]
            elif c['tamper'] in ('shrink', 'zero'):
                m[..., i] = m[..., i] * (0.9 if c['tamper'] == 'shrink' else 0.0)
            elif c['tamper'] == 'scale':
                m[..., i] = m[..., i] * 1.01
            elif c['tamper'] == 'phase':
                m[..., i] = m[..., i] * np.exp(0.7j)
            np.save(p, m)
        phi = drive.modes_of(s.savedir_sim, f, c)
        want = np.vdot(phi[:, i], w * phi[:, j])
        form = [lambda k: [k], int, np.int64, lambda k: np.array([k])][c['seed'] % 4]
        flag, val = us.check_orthogonality(results_dir=s.savedir_sim, mode_idx1=form(i), mode_idx2=form(j), freq_idx=[f])
        val = np.asarray(val).ravel()
        close(val, [want], f'inner product of modes {i},{j} at frequency {f}', rtol=1e-10, atol=1e-12)
        dev = abs(want - (1.0 if i == j else 0.0))
        if dev < 1e-6 or dev > 4e-6:
            require(bool(np.all(flag)) == (dev < 2e-6), f'verdict {flag} for inner product {want} of modes {i},{j}')
        ctx.nontrivial(i != j or c['tamper'] != 'no')


SUBS = [
    Sub('modes', lambda: gen.spod_cases(), modes, quick=700, thorough=8000),
    Sub('large', lambda: gen.spod_cases(large=gen.LARGE), modes, quick=80, thorough=800),
    Sub('deficient', deficient, defi, quick=300, thorough=3000),
    Sub('repeated', repeated, rep, quick=200, thorough=2000),
    Sub('orthogonality', ortho_cases, ortho, quick=150, thorough=2000),
]
