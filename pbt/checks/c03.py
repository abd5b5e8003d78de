"""C03: segmentation, frequency axis, confidence bounds, recorded metadata; infeasible requests rejected."""
import os
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, drive, core
from pbt.core import Sub, close, require, equal

PROPERTY = 'C03'
RULE = ('random configurations; the metadata (getters, params_modes.yaml, eigs_freq.npz) is compared with the definition, '
        'the segmentation is observed through the influence of single snapshots on the spectrum; infeasible requests '
        'must raise. Non-trivial = at least two blocks (metadata), a perturbed snapshot (segmentation), an infeasible '
        'value (rejection).')
ASSUMPTIONS = ['n_blocks = floor((nt - overlap)/(n_dft - overlap)), overlap = ceil(n_dft * percent / 100)']


def meta(c, ctx):
    ctx.label('odd' if c['n_dft'] % 2 else 'even', f'fs={c["fullspectrum"]}', f'complex={c["complex"]}',
              'overlap' if gen.n_overlap_of(c) else 'none', f'nv={c["nv"]}', f'xdim={len(c["xshape"])}')
    d = ctx.dir()
    s = drive.standard(c, d)
    no, nb = gen.n_overlap_of(c), gen.n_blocks_of(c)
    real = not c['complex']
    fr = ref.freq_axis(c['n_dft'], c['dt'], real, c['fullspectrum'])
    close(np.asarray(s.freq), fr, 'frequency axis', rtol=1e-12)
    nm = min(nb, c['n_modes_save'])
    want = dict(n_blocks=nb, n_dft=c['n_dft'], n_freq=len(fr), nt=c['nt'], nx=int(np.prod(c['xshape'])), nv=c['nv'],
                n_modes_save=nm, n_modes=nb, xdim=len(c['xshape']), dim=len(c['xshape']) + 2, dt=c['dt'])
    for k, v in want.items():
        require(getattr(s, k) == v, lambda: f'{k} is {getattr(s, k)!r}, expected {v!r}')
    require(tuple(s.xshape) == tuple(c['xshape']), lambda: f'xshape is {s.xshape}, expected {c["xshape"]}')
    rdir = drive.results_dir(c, d)
    require(os.path.realpath(s.savedir_sim) == os.path.realpath(rdir),
            lambda: f'results in {s.savedir_sim}, expected {rdir}')
    require(os.path.realpath(s.modes_dir) == os.path.realpath(os.path.join(rdir, 'modes')), 'modes_dir')
    got = sorted(os.listdir(os.path.join(rdir, 'modes')))
    require(got == [f'freq_idx_{f:08d}.npy' for f in range(len(fr))], lambda: f'modes folder holds {got}')
    p = core.load_yaml(os.path.join(rdir, 'params_modes.yaml'), 'parameters')
    wantp = dict(n_freq=len(fr), n_blocks=nb, n_overlap=no, n_dft=c['n_dft'], n_modes_save=nm, time_step=c['dt'],
                 n_space_dims=len(c['xshape']), n_variables=c['nv'])
    for k, v in wantp.items():
        require(k in p and p[k] == v, lambda: f'params_modes.yaml: {k} is {p.get(k)!r}, expected {v!r}')
    require(os.path.realpath(p.get('results_folder', '')) == os.path.realpath(rdir), 'results_folder in params')
    z = core.load_npz(os.path.join(rdir, 'eigs_freq.npz'), ['eigs', 'freq', 'eigs_c_u', 'eigs_c_l'])
    equal(z['freq'], np.asarray(s.freq), 'stored frequencies')
    equal(z['eigs'], np.asarray(s.eigs), 'stored eigenvalues')
    lo, up = ref.conf_factors(nb, c['conf_level'])
    e = np.asarray(s.eigs)
    rt = 1e-5 if c['dtype'] == 'single' else 1e-10
    close(z['eigs_c_l'], e * lo, 'lower confidence bound', rtol=1.0, scale=rt * np.abs(e * lo) + 1e-300)
    close(z['eigs_c_u'], e * up, 'upper confidence bound', rtol=1.0, scale=rt * np.abs(e * up) + 1e-300)
    # stored weights (after normalisation) and long-time mean
    R = drive.reference(c)
    shape = tuple(c['xshape']) + (c['nv'],)
    rs = 2e-4 if (c['dtype'] == 'single' or c['f32']) else 1e-10
    sw = core.load_npy(os.path.join(rdir, 'weights.npy'), 'weights')
    close(sw, R.w.reshape(shape), 'stored weights', rtol=1.0, scale=rs * np.abs(R.w.reshape(shape)) + 1e-300)
    ltm = R.ltm.reshape(shape)
    close(core.load_npy(os.path.join(rdir, 'ltm_modes.npy'), 'mean'), ltm, 'stored long-time mean',
          rtol=rs / 10, scale=np.abs(x_scale(c)))
    ctx.nontrivial(nb >= 2)


def x_scale(c):
    return float(np.max(np.abs(drive.data_for_ref(c))))


@st.composite
def seg_cases(draw):
    c = draw(gen.spod_cases(dtypes=('double',), f32_ok=False, normalize_data_ok=False, max_nt=80, n_dft_max=14,
                            kinds=('noise', 'waves')))
    c['normalize_weights'] = False
    c['mean_type'] = draw(st.sampled_from(['blockwise', 'zero']))
    c['ts'] = draw(st.lists(st.integers(0, c['nt'] - 1), min_size=1, max_size=4))
    if draw(st.booleans()):
        c['ts'].append(c['nt'] - 1)
    c['pt'] = draw(st.integers(0, 10 ** 6))
    return c


def seg(c, ctx):
    """with no data shared between blocks through the mean, changing snapshot t changes the spectrum if and only if
    t lies in one of the blocks"""
    x = gen.full_data(c)
    base = dict(c, squeeze=False)
    e0 = np.asarray(drive.standard(base, ctx.dir(), data=[x.copy()]).eigs)
    offs = ref.blocks(c['nt'], c['n_dft'], gen.n_overlap_of(c))
    require(len(offs) == e0.shape[1], lambda: f'{e0.shape[1]} blocks, expected {len(offs)}')
    for t in c['ts']:
        y = x.copy()
        y[t] += 10 * np.abs(x).max() * np.cos(1 + np.arange(y[t].size)).reshape(y[t].shape)
        e1 = np.asarray(drive.standard(base, ctx.dir(), data=[y]).eigs)
        used = any(o <= t < o + c['n_dft'] for o in offs)
        ctx.label('used' if used else 'unused')
        if used:
            require(np.max(np.abs(e1 - e0)) > 1e-9 * max(e0.max(), e1.max()), f'snapshot {t} has no influence on the spectrum')
        else:
            equal(e1, e0, f'spectrum after a change of snapshot {t}, which no block covers')
    ctx.nontrivial()


@st.composite
def bad_cases(draw):
    c = draw(gen.spod_cases(max_nt=60, n_dft_max=12, dtypes=('double',), complex_ok=False))
    c['bad'] = draw(st.sampled_from(['n_dft', 'blocks', 'overlap', 'mean', 'weights', 'weights+', 'negdft',
                                   'shapes']))
    c['v'] = draw(st.integers(0, 40))
    return c


def bad(c, ctx):
    ctx.label('bad=' + c['bad'])
    from pyspod.spod.standard import Standard
    from pyspod.spod.streaming import Streaming
    d = ctx.dir()
    b = c['bad']
    c = dict(c)
    w = gen.make_weights(c)
    if b == 'n_dft':
        c['n_dft'] = [2, 3][c['v'] % 2]; c['overlap'] = 0
    elif b == 'blocks':
        # fewer than two blocks fit
        c['n_dft'] = c['nt'] - c['v'] % (c['nt'] // 2)
        c['overlap'] = 0
        if gen.n_blocks_of(c) >= 2:
            raise core.Skip
    elif b == 'overlap':
        c['overlap'] = 100 + c['v']
    elif b == 'mean':
        c['mean_type'] = ['median', 'long', '', 'block', 'none', 'longtime '][c['v'] % 6]
    elif b in ('weights', 'weights+'):
        n = int(np.prod(c['xshape'])) * c['nv']
        k = n - 1 - c['v'] % n if b == 'weights' else n + 1 + c['v']
        w = dict(weights=np.ones(k), weights_name='bad')
    elif b == 'negdft':
        c['nt'] = c['n_dft'] - 1 - c['v'] % 3
        if c['nt'] < 1:
            raise core.Skip
        c['overlap'] = 0
    xs = [gen.make_data(c)]
    if b == 'shapes':
        y = gen.make_data(c)
        ax = 1 + c['v'] % (y.ndim - 1)
        xs.append(np.concatenate([y] + [y.take([0], axis=ax)] * (1 + c['v'] % 2), axis=ax))
        if c['v'] % 5 == 0:
            xs.reverse()
    cls = Streaming if (c['v'] % 3 == 0 and b != 'mean') else Standard
    ctx.label(cls.__name__)

    def go():
        p = gen.params_of(c, d)
        return cls(params=p, weights=w).fit(data_list=[x.copy() for x in xs])
    core.raises((ValueError, AssertionError) if b == 'shapes' else ValueError, go, f'infeasible request ({b}: n_dft={c["n_dft"]} nt={c["nt"]} overlap={c["overlap"]} '
                                f'mean={c["mean_type"]!r})')
    ctx.nontrivial()


SUBS = [
    Sub('metadata', lambda: gen.spod_cases(), meta, quick=700, thorough=8000),
    Sub('large', lambda: gen.spod_cases(large=gen.LARGE), meta, quick=80, thorough=800),
    Sub('segmentation', seg_cases, seg, quick=250, thorough=3000),
    Sub('rejection', bad_cases, bad, quick=400, thorough=4000),
]
