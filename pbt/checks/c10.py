"""C10: saved Fourier blocks, histories of fits that save, reuse and lose them."""
import os, re
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, drive, core
from pbt.core import Sub, close, require, equal
from pbt.checks.c02 import judge_modes, inconditioned

PROPERTY = 'C10'
RULE = ('histories of up to seven steps in one results directory: fits of different data, weights, mean and normalisation '
        'that save and/or reuse Fourier blocks, serially or on several processes, one- or two-sided, and losses of block '
        'files, against a model of what every block file holds; non-trivial = a fit finds saved blocks')
ASSUMPTIONS = ['one fit at a time works in a results directory', 'numpy/LAPACK and Open MPI are trusted']


def histories(n, large=None):
    @st.composite
    def build(draw):
        c = draw(gen.spod_cases(max_nt=60, n_dft_max=12, max_points=24, min_blocks=2, nvs=(1, 1, 2, 3),
                                extra_points=draw(st.sampled_from([-20, 2])), large=large))
        if n and not large and draw(st.integers(0, 4)) == 0:
            nd = len(c['xshape'])
            c['xshape'] = draw(st.lists(st.integers(1, n), min_size=nd, max_size=nd))
        c['n'] = n
        ops = []
        for i in range(draw(st.integers(2, 7))):
            if i and draw(st.integers(0, 3)) == 0:
                ops.append(['lose', draw(st.sampled_from(['one', 'one', 'block', 'freq', 'all', 'dir'])),
                            draw(st.integers(0, 1000))])
                continue
            o = dict(data=draw(st.integers(0, 2)), savefft=draw(st.booleans()), reuse=draw(st.booleans()),
                     ranks=draw(st.sampled_from([0, n])) if n else 0)
            if draw(st.integers(0, 2)) == 0:
                o['fullspectrum'] = draw(st.booleans())
            if draw(st.integers(0, 2)) == 0:
                o['mean_type'] = draw(st.sampled_from(['longtime', 'blockwise', 'zero']))
            if draw(st.integers(0, 2)) == 0:
                o['w'] = draw(st.sampled_from(['none', 'rand', 'pervar']))
            if draw(st.integers(0, 2)) == 0:
                o['n_modes_save'] = draw(st.integers(1, 6))
            if draw(st.integers(0, 3)) == 0:
                o['normalize_data'] = draw(st.booleans())
            ops.append(['fit', o])
        if not any(o[0] == 'fit' and o[1]['savefft'] for o in ops):
            ops[0] = ['fit', dict(data=0, savefft=True, reuse=False, ranks=draw(st.sampled_from([0, n])))]
        if large:
            ops = [['fit', dict(data=0, savefft=True, reuse=False, ranks=draw(st.sampled_from([0, n])))],
                   *([['lose', 'one', draw(st.integers(0, 100000))]] if draw(st.integers(0, 2)) == 0 else []),
                   ['fit', dict(data=draw(st.integers(0, 1)), savefft=draw(st.booleans()), reuse=True, ranks=draw(st.sampled_from([0, n])))]]
        c['ops'] = ops
        return c
    return build


PAT = re.compile(r'block(\d+)_freq(\d+)\.npy$')


def files(bdir):
    out = {}
    if os.path.isdir(bdir):
        for f in os.listdir(bdir):
            m = PAT.search(f)
            require(m is not None, lambda: f'unexpected file {f} among the blocks')
            out[int(m.group(1)), int(m.group(2))] = os.path.join(bdir, f)
    return out


def check(c, ctx):
    if inconditioned(c):
        raise core.Skip
    d = ctx.dir()
    bdir = os.path.join(drive.results_dir(c, d), 'blocks')
    model = {}       # (block, frequency) -> realisation
    single = c['dtype'] == 'single'
    rt = 5e-4 if single else 1e-9
    nb = gen.n_blocks_of(c)
    for step, (kind, *a) in enumerate(c['ops']):
        if kind == 'lose':
            have = sorted(model)
            if not have:
                continue
            what, k = a
            b, f = have[k % len(have)]
            gone = {'one': [(b, f)], 'block': [x for x in have if x[0] == b], 'freq': [x for x in have if x[1] == f]}.get(
                what, have)
            fs = files(bdir)
            for x in gone:
                os.remove(fs[x])
                del model[x]
            if what == 'dir':
                os.rmdir(bdir)
            ctx.label('lost ' + what)
            continue
        o = a[0]
        cc = dict(c)
        for k in ('fullspectrum', 'mean_type', 'w', 'n_modes_save', 'normalize_data'):
            if k in o:
                cc[k] = o[k]
        cc['seed'] = c['seed'] + 1000 * o['data']
        cc['amp'] = c['amp'] * (1 + 2 * o['data'])
        cc['savefft'], cc['reuse_blocks'] = o['savefft'], o['reuse']
        if inconditioned(cc):
            continue
        if cc['normalize_weights'] and np.any(np.var(gen.full_data(cc).reshape(-1, cc['nv']), axis=0) == 0):
            continue
        R = drive.reference(cc)
        want = {(b, f): R.Q[f][:, b] for b in range(nb) for f in range(R.nf)}
        reused = o['reuse'] and all(x in model for x in want)
        if o['reuse']:
            ctx.label('reused' if reused else ('incomplete' if model else 'nothing saved'))
            ctx.nontrivial(bool(model))
        if reused:
            for b in range(nb):
                for f in range(R.nf):
                    R.Q[f][:, b] = model[b, f]
            for f in range(R.nf):
                M = R.Q[f].conj().T @ (R.W[:, None] * R.Q[f]) / nb
                R.eigs_raw[f] = np.linalg.eigvalsh((M + M.conj().T) / 2)[::-1]
            R.eigs = R.eigs_raw * R.fac[:, None]
        elif o['savefft']:
            model.update(want)
        w = f'step {step}: '
        if o['ranks']:
            outs = ctx.mpi(o['ranks']).run('standard', dict(c=cc, savedir=d))
            ctx.label('parallel' + (' reuse' if reused else ''))
        else:
            s = drive.standard(cc, d)
            outs = [dict(eigs=np.asarray(s.eigs), rdir=s.savedir_sim)]
        emax = R.eigs.max()
        sc = np.broadcast_to(R.eigs[:, :1] * rt + emax * (rt if single else 1e-11), R.eigs.shape)
        for k, r in enumerate(outs):
            close(r['eigs'], R.eigs, f'{w}rank {k}: eigenvalues', rtol=1.0, scale=sc)
        for f in range(R.nf):
            m = drive.modes_of(outs[0]['rdir'], f, cc)
            require(np.all(np.isfinite(m)), f'{w}frequency {f}: non-finite mode')
            if emax == 0 or R.eigs_raw[f, 0] < (1e-4 if single else 1e-12) * emax:
                continue
            judge_modes(m.astype(complex), R.eigs_raw[f], R, f, c['dtype'], f'{w}frequency {f}')
        # what the block files hold now
        fs = files(bdir)
        require(set(fs) == set(model), lambda: f'{w}{len(fs)} block files, expected {len(model)}; '
                f'missing {sorted(set(model) - set(fs))[:3]}, unexpected {sorted(set(fs) - set(model))[:3]}')
        big = max([np.abs(v).max() for v in model.values()], default=0)
        for x in model:
            q = core.load_npy(fs[x])
            core.same_shape(q, np.empty(tuple(c['xshape']) + (c['nv'],)), f'{w}block file {x}')
            close(q.ravel(), model[x], f'{w}block file {x}', rtol=1e-4 if single else 1e-9, scale=big)


SUBS = [Sub('serial', histories(0), check, quick=1000, thorough=12000)] + [
    Sub(f'ranks{n}', histories(n), check, quick=q, thorough=20 * q, slots=n, case_limit=150)
    for n, q in ((2, 220), (3, 180), (5, 120))] + [
    Sub('large', histories(0, ('blocks', 'dft', 'points')), check, quick=30, thorough=300, case_limit=200),
    Sub('large3', histories(3, ('blocks', 'dft', 'points')), check, quick=20, thorough=200, slots=3, case_limit=200)]
