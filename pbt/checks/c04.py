"""C04: a batch SPOD on any number of MPI processes gives the results of the serial one."""
import os
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, drive, core
from pbt.core import Sub, close, require, equal
from pbt.checks.c02 import judge_modes, inconditioned
from pbt.checks import c09

PROPERTY = 'C04'
RULE = ('random data and configurations as for C01, also with fewer points than processes, run on groups of 2, 3, 4 and 5 '
        'real MPI processes and serially, saving the modes per frequency or one per file; non-trivial = the distributed dimension does not divide evenly, or a process '
        'is left without points, or two blocks and a positive eigenvalue')
ASSUMPTIONS = ['processes share one file system and one host', 'numpy/LAPACK and Open MPI are trusted']


def cases(n, large=None):
    @st.composite
    def build(draw):
        c = draw(gen.spod_cases(max_nt=80, n_dft_max=16, extra_points=draw(st.sampled_from([-20, -20, 2])),
                                max_points=40, nvs=(1, 1, 2, 3, 9), large=large))
        if not large and draw(st.integers(0, 3)) == 0:
            # fewer points than processes
            nd = len(c['xshape'])
            c['xshape'] = draw(st.lists(st.integers(1, max(1, n - 1)), min_size=nd, max_size=nd))
        c['n'] = n
        return c
    return build


def serial_and_parallel(c, ctx, **over):
    d1, d2 = ctx.dir('s'), ctx.dir('p')
    s = drive.standard(c, d1, **over)
    out = ctx.mpi(c['n']).run('standard', dict(c=c, savedir=d2, over=over))
    return s, out, drive.results_dir(c, d1), drive.results_dir(c, d2)


def classes(c, ctx):
    big = max(tuple(c['xshape']) + (c['nv'],))
    ctx.label('even' if big % c['n'] == 0 else 'uneven', 'empty share' if big < c['n'] else 'all have points',
              f'nv={c["nv"]}', f'xdim={len(c["xshape"])}', f'complex={c["complex"]}', f'nw={c["normalize_weights"]}',
              f'distributed={"variables" if c["nv"] > max(c["xshape"]) else "space"}')
    return big % c['n'] != 0


def check(c, ctx):
    if inconditioned(c):
        raise core.Skip
    uneven = classes(c, ctx)
    if c['normalize_weights'] and np.any(np.var(gen.full_data(c).reshape(-1, c['nv']), axis=0) == 0):
        raise core.Skip
    s, out, r1, r2 = serial_and_parallel(c, ctx)
    R = drive.reference(c)
    single = c['dtype'] == 'single'
    emax = R.eigs.max()
    rt = 5e-4 if single else 1e-9
    for k, o in enumerate(out):
        w = f'rank {k} of {c["n"]}: '
        close(o['eigs'], R.eigs, w + 'eigenvalues', rtol=1.0,
              scale=np.broadcast_to(R.eigs[:, :1] * rt + emax * (rt if single else 1e-11), R.eigs.shape))
        equal(o['freq'], np.asarray(s.freq), w + 'frequencies')
        for a in ('n_blocks', 'n_modes_save', 'nt', 'nx', 'xshape', 'shape'):
            v = getattr(s, a)
            v = tuple(v) if isinstance(v, (tuple, list)) else v
            require(o[a] == v, lambda: f'{w}{a} is {o[a]!r}, serial {v!r}')
        require(os.path.realpath(o['rdir']) == os.path.realpath(r2), lambda: f'{w}results in {o["rdir"]}')
    # files
    l1 = sorted(os.path.relpath(os.path.join(a, f), r1) for a, _, fs in os.walk(r1) for f in fs)
    l2 = sorted(os.path.relpath(os.path.join(a, f), r2) for a, _, fs in os.walk(r2) for f in fs)
    require(l1 == l2, lambda: f'files of the parallel run: {l2}; serial: {l1}')
    for f in ('weights.npy', 'ltm_modes.npy'):
        a, b = core.load_npy(os.path.join(r1, f)), core.load_npy(os.path.join(r2, f))
        require(a.dtype == b.dtype, f'{f}: data type {b.dtype}, serial {a.dtype}')
        close(b, a, f, rtol=1e-5 if (single or c['f32']) else 1e-11)
    z1 = core.load_npz(os.path.join(r1, 'eigs_freq.npz'), ['eigs', 'freq', 'eigs_c_l', 'eigs_c_u'])
    z2 = core.load_npz(os.path.join(r2, 'eigs_freq.npz'), list(z1))
    for k in z1:
        close(z2[k], z1[k], f'stored {k}', rtol=rt, atol=1e-300)
    p1 = core.load_yaml(os.path.join(r1, 'params_modes.yaml'))
    p2 = core.load_yaml(os.path.join(r2, 'params_modes.yaml'))
    for k in ('savedir', 'results_folder'):
        p1.pop(k, None), p2.pop(k, None)
    require(p1 == p2, lambda: f'parameters {p2}, serial {p1}')
    for f in range(R.nf):
        n = 'modes/freq_idx_%08d.npy' % f
        a, b = core.load_npy(os.path.join(r1, n)), core.load_npy(os.path.join(r2, n))
        core.same_shape(b, a, n)
        require(a.dtype == b.dtype, f'{n}: data type {b.dtype}, serial {a.dtype}')
        require(np.all(np.isfinite(b)), f'{n}: non-finite mode')
        if R.eigs_raw[f, 0] < (1e-4 if single else 1e-12) * emax or emax == 0:
            continue
        judge_modes(b.reshape(-1, b.shape[-1]).astype(complex), R.eigs_raw[f], R, f, c['dtype'], 'parallel ' + n)
    ctx.nontrivial(uneven or emax > 0)


@st.composite
def disk2_cases(draw, large=None):
    c = draw(c09.file_cases('nc', large))
    c.update(stored='f8', time='int', names='sorted', extra=False, padded=False, nchunks=None)
    c['complex'] = False
    # what an earlier fit of other settings left in the same folder
    c['before'] = draw(st.sampled_from([None, None, 'wide', 'memory'])) if large is None else None
    return c


def check_disk2(n):
    """modes saved one file each (savefreq_disk2): written by all processes in turn, as by a single one"""
    def run(c, ctx):
        x = c09.values(c)
        if c['normalize_weights'] and np.any(np.var(x.reshape(-1, c['nv']), axis=0) == 0):
            raise core.Skip
        files = c09.write_nc(c, x, ctx.dir('f'))
        v = [f'q{i}' for i in range(c['nv'])]
        d1, d2 = ctx.dir('s'), ctx.dir('p')
        o1 = ctx.mpi(1).run('fit_files', dict(c=c, files=files, variables=v, savedir=d1))
        if c.get('before') == 'wide':
            ctx.mpi(n).run('fit_files', dict(c=dict(c, fullspectrum=True, n_modes_save=100, savefft=False), files=files, variables=v, savedir=d2))
        elif c.get('before') == 'memory':
            drive.standard(dict(c, fullspectrum=True, n_modes_save=100, savefft=False, complex=False), d2, data=[x])
        ctx.label(f'before={c.get("before")}')
        o2 = ctx.mpi(n).run('fit_files', dict(c=c, files=files, variables=v, savedir=d2))
        r1, r2 = drive.results_dir(c, d1), drive.results_dir(c, d2)
        l1 = sorted(os.path.relpath(os.path.join(a, f), r1) for a, _, fs in os.walk(r1) for f in fs)
        l2 = sorted(os.path.relpath(os.path.join(a, f), r2) for a, _, fs in os.walk(r2) for f in fs)
        require(l1 == l2, lambda: f'files of the parallel run: {l2}; of one process: {l1}')
        c09.judge(c, x, o1, r1)
        c09.judge(c, x, o2, r2)
        total = sum(f.startswith('modes') for f in l2)
        ctx.label('last pass full' if total % n == 0 else 'last pass incomplete')
        ctx.nontrivial(total % n != 0 or int(np.prod(c['xshape'])) % n != 0 or c.get('large') == 'huge')
    return run


SUBS = [Sub('disk2_huge2', lambda: disk2_cases(('huge',)), check_disk2(2), quick=3, thorough=20, slots=2, case_limit=300)] + \
    [Sub('disk2_large3', lambda: disk2_cases(('blocks', 'dft', 'points')), check_disk2(3), quick=12, thorough=150, slots=3, case_limit=200)] + \
    [Sub(f'ranks{n}', cases(n), check, quick=q, thorough=15 * q, slots=n, case_limit=150)
        for n, q in ((2, 220), (3, 220), (4, 120), (5, 150))] + \
    [Sub(f'disk2_{n}', disk2_cases, check_disk2(n), quick=q, thorough=15 * q, slots=n, case_limit=150)
     for n, q in ((2, 50), (3, 50), (5, 40))] + \
    [Sub(f'large{n}', cases(n, gen.LARGE), check, quick=30, thorough=300, slots=n, case_limit=200) for n in (2, 3, 5)]
