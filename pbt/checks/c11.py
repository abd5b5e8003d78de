"""C11: streaming SPOD follows its incremental recurrence."""
import os
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, drive, core
from pbt.core import Sub, close, require, equal, fail

PROPERTY = 'C11'
RULE = ('random data and configurations (any overlap, one or many modes, fewer points than blocks, repeated realisations, '
        'zero weights, real or complex, one- or two-sided) against the recurrence written with plain singular value '
        'decompositions; cuts of the stream into data sets, amplitudes and weights are varied; non-trivial = at least two '
        'completed blocks and a positive singular value')
ASSUMPTIONS = ['numpy/LAPACK are trusted',
               'blocks start either where the batch segmentation starts them or where the published counters start them '
               '(recorded finding stream-offsets)']


@st.composite
def cases(draw, large=None):
    c = draw(gen.spod_cases(max_nt=90, n_dft_max=14, extra_points=draw(st.sampled_from([-20, -20, 2, 2, 2])),
                            max_points=30, min_blocks=2, normalize_data_ok=False,
                            dtypes=('double', 'double', 'double', 'double', 'single'),
                            weights=('none', 'rand', 'wide', 'pervar', 'zeros', 'ints', 'f4'), large=large))
    c['normalize_weights'] = False
    c['n_modes_save'] = draw(st.one_of(st.just(c['n_modes_save']), st.integers(1, 4)))
    c['form'] = draw(st.sampled_from(['plain', 'plain', 'plain', 'rank1', 'periodic', 'quiet']))
    k = draw(st.one_of(*[st.integers(0, 3)] * 5, st.integers(4, 20)))
    c['cuts'] = sorted(set(draw(st.lists(st.integers(1, c['nt'] - 1), min_size=k, max_size=k))))
    c['factor'] = draw(st.sampled_from([1.0, 3.0, -0.5, 1e3]))
    return c


def data(c):
    x = gen.full_data(c)
    if c['form'] == 'rank1':
        rng = np.random.RandomState(c['seed'] + 5)
        s = rng.standard_normal(x.shape[1:]) * (1 + 2j if c['complex'] else 1)
        x = rng.standard_normal(c['nt']).reshape((-1,) + (1,) * s.ndim) * s * c['amp']
    elif c['form'] == 'periodic':
        x = x[np.arange(c['nt']) % (c['n_dft'] // 2 + 1)]
    elif c['form'] == 'quiet':
        x[c['nt'] // 3:] = 0
    return np.ascontiguousarray(x)


def weights(c):
    if c['w'] == 'zeros':
        rng = np.random.RandomState(c['seed'] + 77)
        a = rng.uniform(0.1, 2.0, size=tuple(c['xshape']) + (c['nv'],))
        a.ravel()[rng.uniform(size=a.size) < 0.3] = 0
        return dict(weights=a, weights_name='zeros')
    return gen.make_weights(c)


def user(c, x):
    """the data as handed in"""
    x = x[..., 0] if c['squeeze'] else x
    b = [0] + c['cuts'] + [len(x)]
    return [x[lo:hi].copy() for lo, hi in zip(b, b[1:])]


def modes(c, rdir, nf, k):
    out = []
    for f in range(nf):
        m = core.load_npy(os.path.join(rdir, 'modes', f'freq_idx_{f:08d}.npy'), 'modes')
        core.same_shape(m, np.empty(tuple(c['xshape']) + (c['nv'], k)), f'modes of frequency {f}')
        out.append(m.reshape(-1, k).astype(complex))
    return out


def agree(c, eigs, M, R, w, sub):
    """'' or what differs from the recurrence R"""
    k = R.s.shape[1]
    single = c['dtype'] == 'single'
    eps = 2e-4 if single else 1e-9
    smax = R.s.max()
    for f in range(R.nf):
        # a cut through (nearly) equal singular values keeps one of them, which one is round-off
        if R.gap[f] < (1e-2 if single else 1e-5):
            continue
        fl = eps * R.s[f, 0] / min(1, R.gap[f]) + smax * (1e-5 if single else 1e-11)
        if R.s[f, 0] < smax * (1e-2 if single else 1e-6):
            # content at the level of the round-off of other frequencies
            fl = smax * (1e-3 if single else 1e-10)
        d = np.abs(eigs[f] - R.s[f])
        if np.any(d > fl):
            i = int(np.argmax(d))
            return f'frequency {f}: eigenvalue {i} is {eigs[f, i]!r}, recurrence {R.s[f, i]!r}'
        if R.s[f, 0] < smax * (1e-2 if single else 1e-5):
            continue
        big = [i for i in range(k) if R.s[f, i] > (3e-2 if single else 1e-5) * R.s[f, 0]]
        P = M[f][:, big]
        lam = R.s[f, big] ** 2
        res = R.apply(f, P) - P * lam
        nrm = np.sqrt(np.einsum('ij,i->j', np.abs(res) ** 2, R.W))
        lim = 100 * fl * R.s[f, 0]
        if np.any(nrm > lim):
            i = int(np.argmax(nrm))
            return f'frequency {f}: mode {big[i]} is no singular vector: residual {nrm[i]:.3g}, allowed {lim:.2g}'
    return ''


def check(c, ctx):
    single = c['dtype'] == 'single'
    if single and (abs(c['offset']) > 5 or c['w'] in ('wide', 'zeros') or c['form'] != 'plain'):
        raise core.Skip
    x = data(c)
    if c.get('f32'):
        x = x.astype(np.complex64 if c['complex'] else np.float32)
    wd = weights(c)
    w = np.ones(tuple(c['xshape']) + (c['nv'],)) if wd is None else wd['weights']
    if not np.any(w > 0):
        raise core.Skip
    s = drive.streaming(c, ctx.dir(), data=user(c, x), weights=wd)
    eigs = np.asarray(s.eigs)
    real = bool(np.isreal(x).all())
    k = int(s.n_modes_save)
    require(k == min(c['n_modes_save'], gen.n_blocks_of(c)), lambda: f'{k} modes saved')
    nf = len(ref.freq_axis(c['n_dft'], c['dt'], real, c['fullspectrum']))
    core.same_shape(eigs, np.empty((nf, k)), 'eigenvalues')
    require(np.all(np.isfinite(eigs)), 'non-finite eigenvalue')
    require(np.all(np.abs(eigs.imag) <= 0) and np.all(eigs.real >= 0), 'eigenvalues not real and non-negative')
    eigs = eigs.real.astype(float)
    require(np.all(np.diff(eigs, axis=1) <= 1e-14 * eigs.max()), 'eigenvalues not in descending order')
    M = modes(c, s.savedir_sim, nf, k)
    xr = x.astype(float if real else complex)
    no = gen.n_overlap_of(c)
    why = []
    for off in (ref.stream_offsets(c['nt'], c['n_dft'], no), ref.batch_offsets(c['nt'], c['n_dft'], no)):
        R = ref.Stream(xr, w, c['n_dft'], off, k, real, c['fullspectrum'])
        why.append(agree(c, eigs, M, R, w, ''))
        if not why[-1]:
            break
    require(not why[-1], lambda: why[0])
    W = R.W
    for f in range(nf):
        require(np.all(np.isfinite(M[f])), f'frequency {f}: non-finite mode')
        big = eigs[f] > (1e-2 if single else 1e-6) * max(eigs[f, 0], 1e-6 * eigs.max())
        if not np.any(big) or eigs[f, 0] <= 1e-10 * eigs.max():
            continue
        P = M[f][:, big]
        G = P.conj().T @ (W[:, None] * P)
        require(np.abs(G - np.eye(G.shape[0])).max() < (1e-3 if single else 1e-8),
                lambda: f'frequency {f}: modes not orthonormal, off by {np.abs(G - np.eye(G.shape[0])).max():.3g}')
    z = core.load_npz(os.path.join(s.savedir_sim, 'eigs_freq.npz'), ['eigs', 'freq'])
    close(z['eigs'], np.asarray(s.eigs), 'stored eigenvalues', rtol=0)
    close(z['freq'], ref.freq_axis(c['n_dft'], c['dt'], real, c['fullspectrum']), 'frequencies', rtol=1e-12)
    ltm = core.load_npy(os.path.join(s.savedir_sim, 'ltm_modes.npy'))
    close(ltm, R.ltm.reshape(x.shape[1:]), 'stored mean', rtol=1e-5 if single or c['f32'] else 1e-11, scale=np.abs(x).max())
    close(core.load_npy(os.path.join(s.savedir_sim, 'weights.npy')), w, 'stored weights', rtol=1e-6 if single else 1e-14)
    ctx.nontrivial(R.n >= 2 and R.s.max() > 0)
    ctx.label(f'form={c["form"]}', f'w={c["w"]}', f'complex={c["complex"]}', f'full={c["fullspectrum"]}',
              'single point' if int(np.prod(c['xshape'])) * c['nv'] == 1 else 'points',
              'one mode' if k == 1 else 'modes', 'truncated' if k < R.n else 'all modes',
              f'parts={len(c["cuts"]) + 1}', 'schedule=' + ('published' if len(why) == 1 else 'batch'))


def meta(c, ctx):
    """the stream, not its cuts; amplitude; scale of the weights; reordering the points"""
    c = dict(c, dtype='double', f32=False)
    x = data(c)
    wd = weights(c)
    w = np.ones(tuple(c['xshape']) + (c['nv'],)) if wd is None else wd['weights']
    if not np.any(w > 0):
        raise core.Skip

    def run(cc, x, ww):
        s = drive.streaming(cc, ctx.dir(), data=user(cc, x), weights=dict(weights=ww, weights_name='w'))
        return np.abs(np.asarray(s.eigs)), s
    e0, s0 = run(dict(c, cuts=[]), x, w)
    tol = dict(rtol=1e-7, scale=e0.max())
    e1, s1 = run(c, x, w)
    equal(e1, e0, f'eigenvalues of the stream cut at {c["cuts"]}')
    m0 = modes(c, s0.savedir_sim, e0.shape[0], e0.shape[1])
    m1 = modes(c, s1.savedir_sim, e0.shape[0], e0.shape[1])
    for f in range(len(m0)):
        equal(m1[f], m0[f], f'modes of frequency {f} of the stream cut at {c["cuts"]}')
    ctx.nontrivial(bool(c['cuts']) and e0.max() > 0)
    if c['form'] != 'plain':
        return
    off = ref.stream_offsets(c['nt'], c['n_dft'], gen.n_overlap_of(c))
    R = ref.Stream(x, w, c['n_dft'], off, e0.shape[1], bool(np.isreal(x).all()), c['fullspectrum'])
    if R.gap.min() < 1e-5:
        return
    e2, _ = run(c, x * c['factor'], w)
    close(e2 / abs(c['factor']), e0, f'eigenvalues of {c["factor"]} times the data', **tol)
    e3, _ = run(c, x, w * 9)
    close(e3 / 3, e0, 'eigenvalues with 9 times the weights', **tol)
    p = np.random.RandomState(c['seed']).permutation(x[0].size)
    e4, _ = run(c, x.reshape(len(x), -1)[:, p].reshape(x.shape), w.ravel()[p].reshape(w.shape))
    close(e4, e0, 'eigenvalues with the points in another order', **tol)


def probe_offsets(ctx):
    c = dict(seed=3, n_dft=6, overlap=0, nt=24, nv=1, xshape=[9], squeeze=True, kind='noise', dt=1.0, n_modes_save=4,
             fullspectrum=False, mean_type='longtime', w='none')
    s = drive.streaming(c, ctx.dir())
    R = ref.Stream(gen.full_data(c), np.ones((9, 1)), 6, ref.batch_offsets(24, 6, 0), 4, True, False)
    close(np.abs(np.asarray(s.eigs)), R.s, 'eigenvalues for the blocks 0-5, 6-11, 12-17, 18-23', rtol=1e-9)


SUBS = [
    Sub('large', lambda: cases(large=gen.LARGE), check, quick=40, thorough=500),
    Sub('recurrence', lambda: cases(), check, quick=450, thorough=8000),
    Sub('recurrence2', lambda: cases().map(lambda c: dict(c, seed=c['seed'] + 13)), check, quick=450, thorough=8000),
    Sub('recurrence3', lambda: cases().map(lambda c: dict(c, seed=c['seed'] + 17)), check, quick=450, thorough=8000),
    Sub('relations', lambda: cases(), meta, quick=250, thorough=4000),
]
PROBES = [core.Probe('stream-offsets', 'streaming SPOD skips one snapshot between successive blocks (block counters are reset '
                     'to -1): without overlap blocks start at 0, n_dft+1, 2*n_dft+2, ...; fewer blocks are used than reported',
                     probe_offsets)]
