"""C12: post-processing, streaming SPOD and POD on several MPI processes match the serial ones."""
import os
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, drive, core
from pbt.core import Sub, close, require, equal
from pbt.checks import c05, c06, c11, c13
from pbt.checks.c02 import judge_modes

PROPERTY = 'C12'
RULE = ('stored results of serial fits projected, reconstructed and checked for orthogonality by groups of 2 to 5 MPI '
        'processes and serially; streaming SPOD and POD (with projection and reconstruction) on the same groups against '
        'the serial reference; shapes with uneven and empty shares; non-trivial = non-zero results over at least two points')
ASSUMPTIONS = ['processes share one file system and one host', 'numpy/LAPACK and Open MPI are trusted']


def small(draw, c, n):
    """sometimes fewer points than processes"""
    if draw(st.integers(0, 3)) == 0:
        nd = len(c['xshape'])
        c['xshape'] = draw(st.lists(st.integers(1, max(1, n - 1)), min_size=nd, max_size=nd))
    c['n'] = n
    return c


def shares(c, ctx):
    big = max(tuple(c['xshape']) + (c['nv'],))
    ctx.label('even' if big % c['n'] == 0 else 'uneven', 'empty share' if big < c['n'] else 'all have points',
              f'nv={c["nv"]}', f'xdim={len(c["xshape"])}', f'complex={c["complex"]}',
              f'distributed={"variables" if c["nv"] > max(c["xshape"]) else "space"}')


def post_cases(n, large=None):
    @st.composite
    def build(draw):
        c = draw(c06.rec_cases(large=large))
        c = dict(c, n=n) if large else small(draw, c, n)
        c['conv'] = draw(st.integers(0, 2)) == 0
        k = gen.n_blocks_of(c) if c['n_modes_save'] is None else min(c['n_modes_save'], gen.n_blocks_of(c))
        i = st.integers(0, k - 1)
        c['pairs'] = draw(st.lists(st.tuples(i, i).map(list), min_size=1, max_size=3))
        c['f'] = draw(st.integers(0, c['n_dft'] // 2))
        return c
    return build


def post(c, ctx):
    import pyspod.spod.utils as us
    from pbt import mpijobs
    shares(c, ctx)
    ctx.label('conv' if c['conv'] else 'oblique', 'sel=' + c['sel'])
    s = drive.standard(c, ctx.dir())
    rdir = s.savedir_sim
    kw, ids = c05.selection(c, np.asarray(s.freq))
    kw = dict(kw, tol=c['tol'], svd=c['svd'])
    if c['midx'] is not None:
        kw['modes_idx'] = gen.indices(c['midx'], c)
    raw, x = c05.other_data(c)
    tidx = c['tidx']
    if tidx is None:
        tidx = 'all'
    cond = 1.0
    if not c['conv']:
        phi, w = c05.basis(c, s, ids)
        nt = len(x)
        y = (x.reshape(nt, -1) - x.reshape(nt, -1).mean(axis=0)).T
        ls = c05.least_squares(phi, w, y, c['tol'])
        if ls is None:
            raise core.Skip
        cond = ls[2]
    args = dict(c=c, rdir=rdir, raw=raw, kw=kw, tidx=tidx, conv=c['conv'], pairs=c['pairs'], f=c['f'], via=c['via'])
    one = mpijobs.post(None, sub='s', **args)
    fit = {k: v for k, v in drive.snapshot_tree(rdir).items() if not k.startswith('coeffs')}
    out = ctx.mpi(c['n']).run('post', dict(sub='p', **args))
    for k, v in drive.snapshot_tree(rdir).items():
        require(k.startswith('coeffs') or fit.get(k) == v, lambda: f'{k} changed by the post-processing')
    d = os.path.dirname(one['cdir'])
    for k, o in enumerate(out):
        w = f'rank {k} of {c["n"]}: '
        require(o['same'], w + 'data changed')
        for a in ('file', 'cdir', 'rfile', 'rd'):
            e = os.path.join(d, 'p', os.path.relpath(one[a], os.path.join(d, 's')))
            require(os.path.realpath(o[a]) == os.path.realpath(e), lambda: f'{w}{a} is {o[a]}, serial equivalent {e}')
        for (i, j), (ok, v), (ok1, v1) in zip(c['pairs'], o['orth'], one['orth']):
            require(abs(v - v1) <= 1e-11 and (ok == ok1 or abs(abs(v1 - (i == j)) - 2e-6) < 1e-9),
                    lambda: f'{w}<phi_{i}, phi_{j}> = {v} ({ok}), serial {v1} ({ok1})')
    l1, l2 = (sorted(os.listdir(os.path.join(d, a))) for a in 'sp')
    require(l1 == l2, lambda: f'files of the parallel run: {l2}; serial: {l1}')
    amax = 0
    for f in l1:
        p, q = os.path.join(d, 's', f), os.path.join(d, 'p', f)
        if f.endswith('.npy'):
            a, b = core.load_npy(p), core.load_npy(q)
            require(a.dtype == b.dtype, lambda: f'{f}: data type {b.dtype}, serial {a.dtype}')
            if f == 'modes_r.npy':
                equal(b, a, f)
            else:
                sc = np.abs(a).max() if a.size else 0
                if f == 'coeffs.npy':
                    amax = sc
                close(b, a, f'{f} on {c["n"]} processes', rtol=1e-11 + 1e-14 * cond, scale=max(sc, np.abs(x).max()))
    y1, y2 = (core.load_yaml(os.path.join(d, a, 'params_coeffs.yaml')) for a in 'sp')
    for k in ('coeffs_dir',):
        y1.pop(k, None), y2.pop(k, None)
    require(y1 == y2, lambda: f'parameters {y2}, serial {y1}')
    ctx.nontrivial(amax > 0 and x[0].size >= 2)


def chain_cases(n):
    @st.composite
    def build(draw):
        c = small(draw, draw(gen.spod_cases(dtypes=('double',), f32_ok=False, max_nt=60, n_dft_max=12, normalize_data_ok=False,
                                            extra_points=draw(st.sampled_from([-20, 2])), max_points=30,
                                            weights=('none', 'rand', 'pervar'))), n)
        c['amp'] = draw(st.sampled_from([1.0, 1.0, 1e-7, 1e6]))
        c['normalize_weights'] = False
        c['conv'] = draw(st.booleans())
        c['tidx'] = draw(st.one_of(st.sampled_from(['all', 'half', 'tenth']),
                                   st.lists(st.integers(0, c['nt'] - 1), min_size=1, max_size=5)))
        return c
    return build


def chain(c, ctx):
    """fit, projection and reconstruction in parallel; judged by what least squares on the stored modes gives"""
    import pyspod.spod.utils as us
    shares(c, ctx)
    d = ctx.dir()
    out = ctx.mpi(c['n']).run('fit_post', dict(c=c, savedir=d, tidx=c['tidx'], conv=c['conv']))
    rdir = drive.results_dir(c, d)
    x = gen.full_data(c)
    nt = len(x)
    nf = len(out[0]['freq'])
    phi = np.concatenate([drive.modes_of(rdir, f, c) for f in range(nf)], axis=1)
    w = core.load_npy(os.path.join(rdir, 'weights.npy')).reshape(-1)
    mean = x.reshape(nt, -1).mean(axis=0)
    y = (x.reshape(nt, -1) - mean).T
    a = core.load_npy(out[0]['file'])
    sc = np.abs(x).max()
    if not c['conv']:
        ls = c05.least_squares(phi, w, y, 1e-10)
        if ls is None:
            raise core.Skip
        close(a, ls[0], 'coefficients', rtol=1e-9, atol=1e-13 * ls[2] * max(np.abs(ls[0]).max(), sc))
        full = mean[:, None] + phi @ a
    else:
        m = phi.shape[1] // nf
        f1, d1 = us.compute_coeffs_conv(gen.make_data(c), results_dir=rdir, savedir='serial')
        close(a, core.load_npy(f1), 'convolution coefficients', rtol=1e-10, scale=max(np.abs(a).max(), 1e-12 * sc))
        full = mean[:, None] + phi @ np.moveaxis(a, 1, 2).reshape(nf * m, nt)
    t = c06.times(c['tidx'], nt)
    close(core.load_npy(out[0]['rfile']), full.T.reshape((nt,) + x.shape[1:])[t], 'reconstruction', rtol=1e-10,
          scale=max(np.abs(full).max(), sc))
    for o in out:
        require(o['file'] == out[0]['file'] and o['rfile'] == out[0]['rfile'], 'file names differ between the processes')
    ctx.label('conv' if c['conv'] else 'oblique')
    ctx.nontrivial(np.abs(a).max() > 0)


def stream_cases(n, large=None):
    @st.composite
    def build(draw):
        if large:
            return dict(draw(c11.cases(large=large)), n=n)
        return small(draw, draw(c11.cases()), n)
    return build


def stream(c, ctx):
    single = c['dtype'] == 'single'
    if single and (abs(c['offset']) > 5 or c['w'] in ('wide', 'zeros') or c['form'] != 'plain'):
        raise core.Skip
    shares(c, ctx)
    x = c11.data(c)
    if c['f32']:
        x = x.astype(np.complex64 if c['complex'] else np.float32)
    wd = c11.weights(c)
    w = np.ones(tuple(c['xshape']) + (c['nv'],)) if wd is None else wd['weights']
    if not np.any(w > 0):
        raise core.Skip
    d1, d2 = ctx.dir('s'), ctx.dir('p')
    s = drive.streaming(c, d1, data=c11.user(c, x), weights=wd)
    out = ctx.mpi(c['n']).run('streaming', dict(c=c, savedir=d2, data=c11.user(c, x), weights=wd))
    real = bool(np.isreal(x).all())
    k = int(s.n_modes_save)
    nf = len(s.freq)
    xr = x.astype(float if real else complex)
    no = gen.n_overlap_of(c)
    r1, r2 = s.savedir_sim, out[0]['rdir']
    M = c11.modes(c, r2, nf, k)
    Rs = [ref.Stream(xr, w, c['n_dft'], off, k, real, c['fullspectrum'])
          for off in (ref.stream_offsets(c['nt'], c['n_dft'], no), ref.batch_offsets(c['nt'], c['n_dft'], no))]
    for i, o in enumerate(out):
        wh = f'rank {i} of {c["n"]}: '
        core.same_shape(o['eigs'], np.asarray(s.eigs), wh + 'eigenvalues')
        require(np.all(np.isfinite(o['eigs'])), wh + 'non-finite eigenvalues')
        why = [c11.agree(c, np.abs(o['eigs']).astype(float), M, R, w, '') for R in Rs]
        require('' in why, lambda: wh + why[0])
        equal(o['freq'], np.asarray(s.freq), wh + 'frequencies')
        for a in ('n_blocks', 'n_modes_save', 'nt', 'nx', 'xshape', 'shape'):
            v = getattr(s, a)
            v = tuple(v) if isinstance(v, (tuple, list)) else v
            require(o[a] == v, lambda: f'{wh}{a} is {o[a]!r}, serial {v!r}')
    for f in range(nf):
        require(np.all(np.isfinite(M[f])), f'frequency {f}: non-finite mode')
    l1 = sorted(os.path.relpath(os.path.join(a, f), r1) for a, _, fs in os.walk(r1) for f in fs)
    l2 = sorted(os.path.relpath(os.path.join(a, f), r2) for a, _, fs in os.walk(r2) for f in fs)
    require(l1 == l2, lambda: f'files of the parallel run: {l2}; serial: {l1}')
    for f in ('weights.npy', 'ltm_modes.npy'):
        a, b = core.load_npy(os.path.join(r1, f)), core.load_npy(os.path.join(r2, f))
        close(b, a, f, rtol=1e-5 if (single or c['f32']) else 1e-11, scale=max(np.abs(a).max(), np.abs(x).max() if f[0] == 'l' else 0))
    z = core.load_npz(os.path.join(r2, 'eigs_freq.npz'), ['eigs', 'freq'])
    equal(z['eigs'], out[0]['eigs'], 'stored eigenvalues')
    p1, p2 = (core.load_yaml(os.path.join(r, 'params_modes.yaml')) for r in (r1, r2))
    for k in ('savedir', 'results_folder'):
        p1.pop(k, None), p2.pop(k, None)
    require(p1 == p2, lambda: f'parameters {p2}, serial {p1}')
    ctx.label(f'form={c["form"]}', f'w={c["w"]}')
    ctx.nontrivial(Rs[0].s.max() > 0)


def pod_cases(n, large=None):
    @st.composite
    def build(draw):
        c = draw(c13.pod_cases(max_nt=25, max_points=30, large=large))
        c = dict(c, n=n) if large else small(draw, c, n)
        c['container'] = draw(st.sampled_from(['numpy', 'numpy', 'fortran']))
        m = c['nt'] if c['n_modes_save'] is None else min(c['n_modes_save'], c['nt'])
        c['midx'] = draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, m - 1), min_size=1, max_size=3, unique=True)))
        c['tidx'] = draw(st.one_of(st.sampled_from(['all', 'half', 'tenth']),
                                   st.lists(st.integers(0, c['nt'] - 1), min_size=1, max_size=5)))
        return c
    return build


def pod(c, ctx):
    c = dict(c, dtype='double')
    shares(c, ctx)
    x, wd, R = c13.setting(c)
    nt = c['nt']
    raw = x[..., 0] if c['squeeze'] else x
    d = ctx.dir()
    out = ctx.mpi(c['n']).run('pod', dict(c=c, savedir=d, data=c13.user(c, x), weights=wd, raw=raw, tidx=c['tidx'], midx=gen.indices(c['midx'], c)))
    rdir = out[0]['rdir']
    shp = tuple(c['xshape']) + (c['nv'],)
    n = nt if c['n_modes_save'] is None else min(c['n_modes_save'], nt)
    # what the floating-point rounding of single-precision input leaves is left to C13
    wk = 1e5 if c['f32'] else 1
    noise = np.abs(R.mean).max() ** 2 * R.W.sum() * nt
    tot = max(R.eigs.max(), 0)
    for i, o in enumerate(out):
        w = f'rank {i} of {c["n"]}: '
        close(o['eigs'], R.eigs, w + 'eigenvalues', rtol=1.0, scale=tot * 1e-11 * wk + noise * 1e-25 * wk ** 3 + 1e-300)
        equal(o['eigs'], out[0]['eigs'], w + 'eigenvalues, against rank 0')
        require(o['nt'] == nt and o['xshape'] == tuple(c['xshape']) and o['nx'] == int(np.prod(c['xshape'])),
                lambda: f'{w}nt={o["nt"]} xshape={o["xshape"]} nx={o["nx"]}')
        require(all(o[a] == out[0][a] for a in ('file', 'cdir', 'rfile')), lambda: f'{w}files {o["file"]}, {o["rfile"]}')
    equal(core.load_npz(os.path.join(rdir, 'eigs.npz'), ['eigs'])['eigs'], out[0]['eigs'], 'stored eigenvalues')
    close(core.load_npy(os.path.join(rdir, 'weights.npy')), R.w, 'stored weights', rtol=1.0,
          scale=np.abs(R.w) * 1e-11 * wk + 1e-300)
    m = core.load_npy(os.path.join(rdir, 'modes.npy'))
    core.same_shape(m, np.empty(shp + (n,)), 'modes')
    require(np.all(np.isfinite(m)), 'non-finite mode')
    floor = noise * 1e-22 * wk ** 3
    if tot > floor and tot > 0:
        judge_modes(m.reshape(-1, n).astype(complex), R.eigs, R, 0, 'double' if wk == 1 else 'single', 'parallel POD',
                    lam_rel=max(1e-8 if wk == 1 else 1e-3, floor / tot * 1e4))
    # projection and reconstruction
    phi = (m if c['midx'] is None else m[..., c['midx']])
    n = phi.shape[-1]
    phi = phi.reshape(-1, n)
    W = core.load_npy(os.path.join(rdir, 'weights.npy')).reshape(-1)
    X = x.reshape(nt, -1)
    mean = X.mean(axis=0, dtype=np.complex128 if c['complex'] else float)
    a = core.load_npy(out[0]['file'])
    tol = 1e-11 if wk == 1 else 1e-5
    close(a, phi.conj().T @ (W[:, None] * (X - mean).T), 'coefficients', rtol=tol,
          scale=np.max(np.abs(phi.conj().T) @ (W[:, None] * np.abs(X.T))))
    close(core.load_npy(os.path.join(out[0]['cdir'], 'ltm.npy')), mean.reshape(shp), 'stored mean', rtol=tol, scale=np.abs(X).max())
    equal(core.load_npy(os.path.join(out[0]['cdir'], 'modes_r.npy')), phi.reshape(shp + (n,)), 'stored modes')
    full = (mean[:, None] + phi @ a).T.reshape((nt,) + shp)
    close(core.load_npy(out[0]['rfile']), full[c06.times(c['tidx'], nt)], 'reconstruction', rtol=tol,
          scale=np.abs(mean).max() + (np.abs(phi) @ np.abs(a)).max())
    ctx.label(f'form={c["form"]}', f'nw={c["normalize_weights"]}')
    ctx.nontrivial(tot > 0 and x[0].size >= 2)


SUBS = [Sub('post_large', post_cases(3, gen.LARGE), post, quick=15, thorough=200, slots=3, case_limit=200),
        Sub('pod_large', pod_cases(3, ('times', 'points', 'vars')), pod, quick=20, thorough=200, slots=3, case_limit=200),
        Sub('stream_large', stream_cases(3, ('blocks', 'dft', 'vars', 'points')), stream, quick=4, thorough=80, slots=3, case_limit=200)]
for _n, _q in ((2, 60), (3, 60), (4, 30), (5, 30)):
    SUBS += [Sub(f'post{_n}', post_cases(_n), post, quick=2 * _q, thorough=20 * _q, slots=_n, case_limit=150),
             Sub(f'stream{_n}', stream_cases(_n), stream, quick=_q, thorough=12 * _q, slots=_n, case_limit=150),
             Sub(f'pod{_n}', pod_cases(_n), pod, quick=2 * _q, thorough=20 * _q, slots=_n, case_limit=150),
             Sub(f'chain{_n}', chain_cases(_n), chain, quick=_q, thorough=12 * _q, slots=_n, case_limit=150)]
