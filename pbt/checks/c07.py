"""C07: stored results round-trip and are not altered by being used."""
import os
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, drive, core
from pbt.core import Sub, close, require, equal

PROPERTY = 'C07'
RULE = ('random fits (batch SPOD, streaming SPOD, POD) followed by random histories of retrievals (whose arrays are then '
        'overwritten in place), projections, reconstructions, orthogonality checks and plots; the bytes of the stored '
        'results are compared after every step, and everything is read back in another process; '
        'non-trivial = at least two steps of which one modifies a returned array')
ASSUMPTIONS = []

FIT_FILES = ('eigs_freq.npz', 'weights.npy', 'ltm_modes.npy', 'params_modes.yaml', 'eigs.npz', 'modes.npy')
OPS = ['get', 'get_post', 'all', 'file_w', 'file_ltm', 'attr_eigs', 'attr_weights', 'attr_freq', 'ortho', 'coeffs',
       'coeffs_band', 'coeffs_conv', 'rec', 'plot_ef', 'plot_ep', 'plot_eigs', 'plot_mode', 'refit_other', 'nearest']


@st.composite
def histories(draw, large=None):
    c = draw(gen.spod_cases(max_nt=50, n_dft_max=10, max_points=24, ndims=(1, 2, 2, 3), min_axis=2, large=large))
    c['ops'] = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 50), st.sampled_from([0.0, 7.0, 'nan', 'neg'])),
                             min_size=1, max_size=8))
    c['ops'] = [list(o) for o in c['ops']]
    c['algo'] = draw(st.sampled_from(['standard', 'standard', 'standard', 'streaming']))
    if c['algo'] == 'streaming':
        c.update(normalize_weights=False, complex=False, nv=1)
        c['xshape'] = c['xshape'][:2]
    c['elsewhere'] = draw(st.booleans())
    return c


def spoil(a, how):
    a = a if isinstance(a, np.ndarray) else np.asarray(a)
    try:
        if how == 'nan':
            a[...] = np.nan
        elif how == 'neg':
            np.negative(a, out=a)
            a += 1
        else:
            a[...] = how
        if hasattr(a, 'flush'):
            a.flush()
    except ValueError:
        return False          # a read-only array is as good
    return True


def fitfiles(rdir):
    return {k: v for k, v in drive.snapshot_tree(rdir).items()
            if k in FIT_FILES or k.startswith('modes' + os.sep)}


def compare(before, after, step):
    for k in before:
        require(k in after, lambda: f'{step}: stored result {k} disappeared')
        require(before[k] == after[k], lambda: f'{step}: stored result {k} changed')


def readback(c, s, got, freqs, attrs, files):
    """got: what another process retrieved; attrs: attributes of the model right after the fit"""
    equal(got['eigs'], attrs['eigs'], 'eigenvalues retrieved')
    equal(got['freq'], attrs['freq'], 'frequencies retrieved')
    nm, nf = attrs['n_modes_save'], len(attrs['freq'])
    shp = tuple(c['xshape']) + (c['nv'],)
    core.same_shape(got['weights'], np.empty(shp), 'weights retrieved')
    equal(got['weights'].ravel(), attrs['weights'].ravel(), 'weights retrieved')
    core.same_shape(got['ltm'], np.empty(shp), 'mean retrieved')
    core.same_shape(got['all'], np.empty((nf,) + shp + (nm,)), 'all modes')
    for f in freqs:
        equal(got['modes'][f], files[f], f'modes retrieved at frequency {f}')
    for f in range(nf):
        equal(got['all'][f], files[f], f'all modes, frequency {f}')
    p = got['params']
    for k, v in dict(n_freq=nf, n_modes_save=nm, n_dft=c['n_dft'], n_blocks=attrs['n_blocks'], time_step=c['dt'],
                     n_space_dims=len(c['xshape']), n_variables=c['nv'], n_overlap=gen.n_overlap_of(c)).items():
        require(p.get(k) == v, lambda: f'parameters retrieved: {k}={p.get(k)!r}, expected {v!r}')


def history(c, ctx):
    import pyspod.utils.postproc as post
    import pyspod.spod.utils as us
    d = ctx.dir()
    ctx.label('algo=' + c['algo'], f'n_ops={len(c["ops"])}', *['op=' + o[0] for o in c['ops']])
    fit = drive.standard if c['algo'] == 'standard' else drive.streaming
    s = fit(c, d)
    rdir = s.savedir_sim
    attrs = dict(eigs=np.array(s.eigs), freq=np.array(s.freq), weights=np.array(s.weights), n_blocks=int(s.n_blocks),
                 n_modes_save=int(s.n_modes_save))
    nf, nm = len(attrs['freq']), attrs['n_modes_save']
    before = fitfiles(rdir)
    need = ['eigs_freq.npz', 'weights.npy', 'ltm_modes.npy', 'params_modes.yaml'] + \
           [os.path.join('modes', f'freq_idx_{f:08d}.npy') for f in range(nf)]
    for k in need:
        require(k in before, lambda: f'{k} was not written by the fit')
    files = {f: np.load(os.path.join(rdir, 'modes', f'freq_idx_{f:08d}.npy')) for f in range(nf)}
    x = gen.make_data(c)
    cdirs, spoiled, extra = [], 0, {}
    for op, k, how in c['ops']:
        f = k % nf
        pre = {q: v for q, v in drive.snapshot_tree(rdir).items() if os.path.basename(os.path.dirname(q)) != 'modes'}
        if op == 'get':
            m = s.get_modes_at_freq(f)
            equal(m, files[f], f'modes of the model at frequency {f}')
            spoiled += spoil(m, how)
            equal(s.get_modes_at_freq(f), files[f], f'modes retrieved again after a returned array was changed')
        elif op == 'get_post':
            m = post.get_modes_at_freq(results_path=rdir, freq_idx=f)
            equal(m, files[f], f'get_modes_at_freq({f})')
            spoiled += spoil(m, how)
        elif op == 'all':
            m = post.get_all_modes(rdir)
            for g in range(nf):
                equal(m[g], files[g], f'get_all_modes, frequency {g}')
            spoiled += spoil(m, how)
        elif op in ('file_w', 'file_ltm'):
            m = post.get_data_from_file(os.path.join(rdir, 'weights.npy' if op == 'file_w' else 'ltm_modes.npy'))
            spoiled += spoil(m, how)
        elif op in ('attr_eigs', 'attr_weights', 'attr_freq'):
            spoiled += spoil(np.array(getattr(s, op[5:]), copy=True), how)
            a = getattr(s, op[5:])
            if op != 'attr_freq' and how != 'nan':
                spoil(a, how)
                # put back what the model reports, so that later steps can be judged
                a[...] = attrs[op[5:]].reshape(a.shape)
        elif op == 'ortho':
            us.check_orthogonality(rdir, [k % nm], [0], [f])
        elif op == 'coeffs':
            _, cd = us.compute_coeffs_op(x, results_dir=rdir)
            cdirs.append(cd)
        elif op == 'coeffs_band':
            _, cd = us.compute_coeffs_op(x, results_dir=rdir, freq_idx=[f], savedir='band')
            cdirs.append(cd)
        elif op == 'coeffs_conv':
            _, cd = us.compute_coeffs_conv(x, results_dir=rdir, freq_idx=[f], savedir='conv')
            cdirs.append(cd)
        elif op == 'rec':
            if cdirs:
                cd = cdirs[k % len(cdirs)]
                us.compute_reconstruction(cd, time_idx=[0, k % c['nt']])
                rel = os.path.relpath(cd, rdir)
                for q in pre:
                    if q.startswith(rel + os.sep) and not q.endswith('reconstructed.npy') and \
                            os.path.dirname(q) == rel:
                        now = open(os.path.join(rdir, q), 'rb').read()
                        require(now == pre[q], lambda: f'reconstruction changed {q}')
        elif op == 'plot_ef':
            s.plot_eigs_vs_frequency(filename='ef.png', figsize=(2, 2))
        elif op == 'plot_ep':
            post.plot_eigs_vs_period(s.eigs, s.freq, filename='ep.png', path=rdir, figsize=(2, 2))
        elif op == 'plot_eigs':
            s.plot_eigs(filename='e.png', figsize=(2, 2))
        elif op == 'plot_mode':
            if len(c['xshape']) == 2 and min(c['xshape']) >= 2:
                post.plot_2d_modes_at_frequency(rdir, freq_req=attrs['freq'][f], freq=attrs['freq'],
                                                modes_idx=[k % nm], filename='m.png', path=rdir, figsize=(2, 2))
        elif op == 'refit_other':
            # another fit, in another directory and on other data
            c2 = dict(c, seed=c['seed'] + 5, ops=[])
            fit(c2, ctx.dir())
        elif op == 'nearest':
            s.find_nearest_freq(freq_req=attrs['freq'][f])
        compare(before, fitfiles(rdir), f'step {op}')
        if op not in ('coeffs', 'coeffs_band', 'coeffs_conv', 'rec', 'plot_ef', 'plot_ep', 'plot_eigs', 'plot_mode'):
            now = drive.snapshot_tree(rdir)
            for q in pre:
                require(now.get(q) == pre[q], lambda: f'step {op} changed {q}')
    equal(s.eigs, attrs['eigs'], 'eigenvalues of the model after the history')
    equal(s.freq, attrs['freq'], 'frequencies of the model after the history')
    freqs = sorted({k % nf for _, k, _ in c['ops']} | {0, nf - 1})
    got = ctx.mpi(1).run('retrieve', dict(rdir=rdir, freqs=freqs, cwd=ctx.dir() if c['elsewhere'] else None))[0]
    readback(c, s, got, freqs, attrs, files)
    compare(before, fitfiles(rdir), 'reading in another process')
    ctx.nontrivial(len(c['ops']) >= 2 and spoiled >= 1)


# ------------------------------------------------------------------------------------------------
# one file per mode (what a fit with `savefreq_disk2` leaves)
@st.composite
def layouts(draw):
    return dict(seed=draw(st.integers(0, 2 ** 20)), nf=draw(st.integers(1, 13)), nm=draw(st.integers(1, 13)),
                shape=draw(st.lists(st.integers(1, 4), min_size=2, max_size=4)),
                per_mode=draw(st.booleans()), dtype=draw(st.sampled_from(['complex128', 'complex64'])),
                order=draw(st.booleans()), first=draw(st.sampled_from([0, 0, 0, 7, 95, 997, 99998])))


def layout(c, ctx):
    import pyspod.utils.postproc as post
    d = ctx.dir()
    os.makedirs(os.path.join(d, 'modes'))
    first = c.get('first', 0)
    rng = np.random.RandomState(c['seed'])
    shp = (c['nf'],) + tuple(c['shape']) + (c['nm'],)
    m = (rng.standard_normal(shp) + 1j * rng.standard_normal(shp)).astype(c['dtype'])
    jobs = [(f, k) for f in range(c['nf']) for k in range(c['nm'])]
    if c['order']:
        rng.shuffle(jobs)
    for f, k in jobs:
        if c['per_mode']:
            np.save(os.path.join(d, 'modes', f'freq_idx_f{f + first:08d}_m{k:08d}.npy'), m[f, ..., k])
        elif k == 0:
            np.save(os.path.join(d, 'modes', f'freq_idx_{f + first:08d}.npy'), m[f])
    here = os.getcwd()
    for f in {0, c['nf'] - 1, c['seed'] % c['nf']}:
        got = post.get_modes_at_freq(d, f + first)
        equal(got, m[f], f'modes at frequency {f}')
        require(got.dtype == m.dtype, lambda: f'type {got.dtype}')
        spoil(got, 0.0)
        equal(post.get_modes_at_freq(d, f + first), m[f], f'modes at frequency {f}, second time')
    if not first:
        equal(post.get_all_modes(d), m, 'all modes')
    require(os.getcwd() == here, 'working directory changed')
    ctx.label(f'per_mode={c["per_mode"]}')
    ctx.nontrivial(c['nf'] > 1 and c['nm'] > 1)


# ------------------------------------------------------------------------------------------------
# a fit told not to write its modes
def nodisk(c, ctx):
    d1, d2 = ctx.dir(), ctx.dir()
    a = drive.standard(c, d1)
    b = drive.standard(c, d2, savefreq_disk=False)
    r1, r2 = a.savedir_sim, b.savedir_sim
    for k in ('eigs', 'freq', 'weights'):
        equal(np.asarray(getattr(b, k)), np.asarray(getattr(a, k)), f'{k} of a fit that writes no modes')
    z1 = core.load_npz(os.path.join(r1, 'eigs_freq.npz'), ['eigs', 'freq'])
    z2 = core.load_npz(os.path.join(r2, 'eigs_freq.npz'), ['eigs', 'freq'])
    for k in ('eigs', 'freq'):
        equal(z2[k], z1[k], f'stored {k} of a fit that writes no modes')
        equal(z2[k], np.asarray(getattr(b, k)), f'stored {k}')
    for k in ('weights.npy', 'ltm_modes.npy'):
        equal(core.load_npy(os.path.join(r2, k)), core.load_npy(os.path.join(r1, k)), f'{k} of a fit that writes no modes')
    with open(os.path.join(r1, 'params_modes.yaml')) as f1, open(os.path.join(r2, 'params_modes.yaml')) as f2:
        import yaml
        p1, p2 = yaml.safe_load(f1), yaml.safe_load(f2)
    for k in p1:
        if k not in ('savedir', 'savefreq_disk', 'results_folder'):
            require(k in p2 and p2[k] == p1[k], lambda: f'parameters: {k}={p2.get(k)!r}, expected {p1[k]!r}')
    require(p2.get('savefreq_disk') is False, lambda: f'parameters: savefreq_disk={p2.get("savefreq_disk")!r}')
    left = [q for q in drive.snapshot_tree(r2) if os.path.basename(q).startswith('freq_idx')]
    require(not left, lambda: f'modes written although savefreq_disk is False: {left[:3]}')
    try:
        m = b.get_modes_at_freq(0)
    except Exception:
        m = None
    require(m is None, 'modes retrieved from a fit that wrote none')
    ctx.nontrivial(gen.n_blocks_of(c) > 1)


@st.composite
def pod_histories(draw):
    c = dict(seed=draw(st.integers(0, 2 ** 20)), nt=draw(st.integers(2, 20)), nv=draw(st.sampled_from([1, 1, 2])),
             xshape=draw(gen.xshapes(max_points=20)), w=draw(st.sampled_from(['none', 'rand'])), dt=1.0,
             squeeze=draw(st.booleans()), n_modes_save=draw(st.integers(1, 20)),
             normalize_weights=draw(st.booleans()), complex=draw(st.booleans()))
    c['ops'] = [list(o) for o in draw(st.lists(
        st.tuples(st.sampled_from(['coeffs', 'coeffs_m', 'rec', 'rec_m', 'w', 'eigs', 'file']), st.integers(0, 30)), min_size=1, max_size=6))]
    return c


def pod_history(c, ctx):
    import pyspod.pod.utils as up
    import pyspod.utils.postproc as post
    from pyspod.pod.standard import Standard
    p = dict(time_step=1.0, n_space_dims=len(c['xshape']), n_variables=c['nv'], n_modes_save=c['n_modes_save'],
             normalize_weights=c['normalize_weights'], savedir=ctx.dir())
    s = Standard(params=p, weights=gen.make_weights(c)).fit(data_list=[gen.make_data(c)])
    x = gen.make_data(c)
    rdir = drive.pod_results(s)
    before = fitfiles(rdir)
    eigs, w = np.array(s.eigs), np.array(s.weights)
    for k in ('weights.npy', 'modes.npy', 'eigs.npz', 'params_modes.yaml'):
        require(k in before, lambda: f'{k} was not written by the fit')
    z = core.load_npz(os.path.join(rdir, 'eigs.npz'), ['eigs'])
    equal(z['eigs'], eigs, 'stored eigenvalues')
    equal(core.load_npy(os.path.join(rdir, 'weights.npy')).ravel(), w.ravel(), 'stored weights')
    cd, own = None, False        # own: the model computed coefficients itself
    for op, k in c['ops']:
        if op == 'coeffs':
            _, cd = up.compute_coeffs_op(x, results_dir=rdir)
        elif op == 'coeffs_m':
            (_, cd), own = s.compute_coeffs_op(x, results_dir=rdir), True
        elif op in ('rec', 'rec_m') and cd:
            keep = drive.snapshot_tree(cd)
            if op == 'rec' or not own:
                up.compute_reconstruction(cd, time_idx=[k % c['nt']])
            else:
                s.compute_reconstruction(coeffs_dir=cd, time_idx=[k % c['nt']])
            now = drive.snapshot_tree(cd)
            for q in keep:
                if not q.endswith('reconstructed.npy'):
                    require(now.get(q) == keep[q], lambda: f'reconstruction changed {q}')
        elif op == 'w':
            s.weights[...] = k
        elif op == 'eigs':
            s.eigs[...] = k
        elif op == 'file':
            spoil(post.get_data_from_file(os.path.join(rdir, 'modes.npy')), k)
        compare(before, fitfiles(rdir), f'step {op}')
    ctx.label(*['op=' + o[0] for o in c['ops']])
    ctx.nontrivial(len(c['ops']) >= 2)


SUBS = [
    Sub('large', lambda: histories(large=('blocks', 'dft', 'vars')), history, quick=25, thorough=300, case_limit=200),
    Sub('history', lambda: histories(), history, quick=130, thorough=2500, slots=2),
    Sub('history2', lambda: histories().map(lambda c: dict(c, seed=c['seed'] + 3)), history, quick=130, thorough=2500, slots=2),
    Sub('nodisk', lambda: gen.spod_cases(max_nt=50, n_dft_max=10, max_points=24), nodisk, quick=60, thorough=1000),
    Sub('layout', lambda: layouts(), layout, quick=150, thorough=3000),
    Sub('pod', lambda: pod_histories(), pod_history, quick=200, thorough=4000),
]
