"""C16: weight normalisation divides each variable by its own variance."""
import os
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, drive, core
from pbt.core import Sub, close, require, equal
from pbt.checks import c13

PROPERTY = 'C16'
RULE = ('random data of one to five variables with very different scales and means, random weights, serially and cut in any '
        'way (also empty shares, chunks in time) over 2 to 5 processes; fits of rescaled variables; non-trivial = two '
        'variables with different variances, or several processes')
ASSUMPTIONS = ['data are finite and no variable is constant']


@st.composite
def cases(draw, n=None):
    c = dict(seed=draw(st.integers(0, 2 ** 20)), nt=draw(gen.tail(2, 30, 400)), nv=draw(gen.tail(1, 5, 30)),
             xshape=draw(gen.xshapes(max_points=30)), kind=draw(st.sampled_from(['noise', 'trend', 'ints', 'spiky'])),
             amp=draw(st.sampled_from([1.0, 1e-3, 250.0])), offset=draw(st.sampled_from([0.0, 1.0, -20.0])),
             vscale=draw(st.booleans()), complex=draw(st.integers(0, 3)) == 0, f32=draw(st.integers(0, 4)) == 0,
             w=draw(st.sampled_from(['ones', 'rand', 'wide', 'pervar', 'int', 'zeros'])), squeeze=False,
             method=draw(st.sampled_from(['variance', 'variance', 'variance', 'Variance', 'VARIANCE', 'none', 'something'])))
    if n:
        c['n'] = n
        full = c['xshape'] + [c['nv']]
        c['axis'] = draw(st.sampled_from([len(full) - 1, int(np.argmax(full)), draw(st.integers(0, len(full) - 2))]))
        m = full[c['axis']]
        c['inner'] = draw(st.one_of(st.just(None), st.lists(st.integers(0, m), min_size=n - 1, max_size=n - 1).map(sorted)))
        if c['axis'] == len(full) - 1 and m < n and c['inner'] is None:
            c['inner'] = sorted([min(i + 1, m) for i in range(n - 1)])
        k = draw(st.integers(0, 2))
        c['chunks'] = draw(st.one_of(st.none(), st.none(), st.lists(st.integers(1, c['nt'] - 1), min_size=k, max_size=k).map(
            lambda v: [0] + sorted(set(v)) + [c['nt']])))
    return c


def weights(c):
    if c['w'] == 'int':
        return np.random.RandomState(c['seed']).randint(1, 9, tuple(c['xshape']) + (c['nv'],))
    if c['w'] == 'zeros':
        w = np.random.RandomState(c['seed']).uniform(size=tuple(c['xshape']) + (c['nv'],))
        return w * (w > 0.3)
    return gen.make_weights(c)['weights']


def setting(c):
    x = gen.make_data(c)
    xr = x.astype(complex if c['complex'] else float)
    var = np.array([np.var(xr[..., i]) for i in range(c['nv'])])
    if np.any(var <= (1e-4 if c['f32'] else 1e-9) * np.abs(xr).max(axis=tuple(range(xr.ndim - 1))) ** 2) or np.any(var == 0):
        raise core.Skip
    w = weights(c)
    want = w / var if c['method'].lower() == 'variance' else w.astype(float)
    return x, w, want, var


def lab(c, ctx):
    ctx.label(f'w={c["w"]}', f'nv={c["nv"]}', 'method=' + c['method'].lower(), f'complex={c["complex"]}')


def serial(c, ctx):
    from pyspod.utils.weights import apply_normalization
    x, w, want, var = setting(c)
    x0, w0 = x.copy(), w.copy()
    k = {} if c['method'] == 'variance' and c['seed'] % 2 else {'method': c['method']}
    got = apply_normalization(x, w, c['nv'], **k)
    tol = 1e-4 if c['f32'] else 1e-10
    close(got, want, 'normalized weights', rtol=tol, atol=1e-300, scale=np.abs(want))
    equal(w, w0, 'weights passed by the user')
    equal(x, x0, 'data passed by the user')
    lab(c, ctx)
    ctx.nontrivial(c['nv'] > 1 and var.max() > 1.01 * var.min() and c['method'].lower() == 'variance')


def parallel(c, ctx):
    x, w, want, var = setting(c)
    full = c['xshape'] + [c['nv']]
    m = full[c['axis']]
    n = c['n']
    if c['inner'] is None:
        inner = [(m * (i + 1)) // n for i in range(n - 1)]
    else:
        inner = c['inner']
    cuts = [0] + list(inner) + [m]
    out = ctx.mpi(n).run('normalize', dict(data=x, weights=w, nv=c['nv'], method=c['method'], cuts=cuts, axis=c['axis'],
                                           chunks=c['chunks']))
    tol = 1e-4 if c['f32'] else 1e-10
    got = np.concatenate([o[0] for o in out], axis=c['axis'])
    close(got, want, f'normalized weights, shares {cuts} of axis {c["axis"]}', rtol=tol, atol=1e-300, scale=np.abs(want))
    require(all(o[1] for o in out), 'data or weights changed')
    lab(c, ctx)
    ctx.label('variables distributed' if c['axis'] == len(full) - 1 else 'space distributed',
              'empty share' if any(a == b for a, b in zip(cuts, cuts[1:])) else 'all have data',
              'array' if c['chunks'] is None else 'chunks')
    ctx.nontrivial(c['method'].lower() == 'variance')


@st.composite
def fits(draw):
    c = draw(gen.spod_cases(dtypes=('double',), f32_ok=False, max_nt=60, n_dft_max=10, normalize_data_ok=False, max_points=20,
                            nvs=(1, 2, 2, 3), weights=('none', 'rand', 'pervar'), kinds=('noise', 'waves')))
    c.update(normalize_weights=True, squeeze=False, vscale=False)
    c['scales'] = draw(st.lists(st.sampled_from([1.0, -1.0, 1e3, 1e-4, 7.5, 0.3]), min_size=c['nv'], max_size=c['nv']))
    c['pod'] = draw(st.booleans())
    return c


def rescale(c, ctx):
    """units of a variable do not matter"""
    x = gen.full_data(c)
    wd = gen.make_weights(c)
    w0 = None if wd is None else wd['weights'].copy()
    sc = np.array(c['scales'])

    def run(d):
        if c['pod']:
            s, _ = drive.pod(dict(c, n_modes_save=None, mean_type='longtime'), ctx.dir(), d, wd)
        else:
            s = drive.standard(c, ctx.dir(), data=[d], weights=wd)
        return np.asarray(s.eigs)
    e0, e1 = run(x.copy()), run(x * sc)
    close(e1, e0, f'eigenvalues with the variables times {c["scales"]}', rtol=1e-8, scale=e0.max())
    if wd is not None:
        equal(wd['weights'], w0, 'weights passed by the user')
    ctx.label('POD' if c['pod'] else 'SPOD', f'nv={c["nv"]}')
    ctx.nontrivial(e0.max() > 0 and bool(np.any(sc != 1)))


SUBS = [Sub('serial', cases, serial, quick=500, thorough=8000), Sub('fits', fits, rescale, quick=150, thorough=2500)]
for _n, _q in ((2, 200), (3, 200), (5, 120)):
    SUBS.append(Sub(f'ranks{_n}', (lambda n: lambda: cases(n))(_n), parallel, quick=_q, thorough=15 * _q, slots=_n, case_limit=150))
