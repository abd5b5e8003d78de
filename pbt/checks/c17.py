"""C17: collective array files round-trip for any partition."""
import os
import numpy as np
from hypothesis import strategies as st
from pbt import drive, core, gen
from pbt.core import Sub, close, require, equal
from pbt.checks.c18 import Fake

PROPERTY = 'C17'
RULE = ('arrays of one to four dimensions and many data types, cut at random along any axis (empty parts included) and held '
        'in different memory layouts, saved by 1 to 5 processes and compared with the concatenation; read back with '
        'default and random counts along any axis; files written by numpy in C and Fortran order; non-trivial = at least '
        'two processes hold different counts, or the layouts differ')
ASSUMPTIONS = ['one file system and one host; Open MPI is trusted']

TYPES = ['<f8', '<f4', '<c16', '<c8', '<i8', '<i4', '<i2', '|i1', '|u1', '<u8', '|b1', '>f8', '>c16', '>i4', '>f4']
ORDERS = ['C', 'C', 'F', 'strided', 'reversed', 'readonly']


def array(c):
    rng = np.random.RandomState(c['seed'])
    t = np.dtype(c['dtype'])
    a = rng.standard_normal(c['shape']) * 50
    if t.kind == 'c':
        a = a + 1j * rng.standard_normal(c['shape'])
    if t.kind == 'b':
        a = a > 0
    if t.kind == 'u':
        a = np.abs(a)
    a = a.astype(t)
    if t.kind in 'fc' and a.size:
        a.ravel()[rng.randint(a.size)] = [np.inf, np.nan, -0.0, 1.0][c['seed'] % 4]
    return a


@st.composite
def cases(draw, n):
    nd = draw(st.integers(1, 4))
    c = dict(seed=draw(st.integers(0, 2 ** 20)), shape=draw(st.lists(st.integers(1, 7), min_size=nd, max_size=nd)),
             dtype=draw(st.sampled_from(TYPES)), n=n, axis=draw(st.integers(0, nd - 1)), axis2=draw(st.integers(0, nd - 1)))
    if draw(st.integers(0, 5)) == 0:
        c['shape'][c['axis']] = draw(gen.tail(0, 60, 100000, 3))
    m = c['shape'][c['axis']]
    c['cuts'] = [0] + sorted(draw(st.lists(st.integers(0, m), min_size=n - 1, max_size=n - 1))) + [m]
    c['orders'] = draw(st.lists(st.sampled_from(ORDERS), min_size=n, max_size=n))
    m2 = c['shape'][c['axis2']]
    k = sorted(draw(st.lists(st.integers(0, m2), min_size=n - 1, max_size=n - 1)))
    c['counts'] = draw(st.one_of(st.none(), st.just([b - a for a, b in zip([0] + k, k + [m2])])))
    c['old'] = draw(st.sampled_from(['none', 'none', 'longer', 'shorter']))
    c['forder'] = draw(st.booleans())
    return c


def spread(m, n):
    return [m // n + (m % n > r) for r in range(n)]


def parts(c, out, a):
    """the local shares are those requested, or those of distributed data; in order"""
    n = c['n']
    got = [o.shape[c['axis2']] for o in out]
    m = a.shape[c['axis2']]
    if c['counts'] is not None:
        require(got == list(c['counts']), lambda: f'counts {got}, requested {c["counts"]}')
    else:
        import pyspod.utils.parallel as par
        want = [par.distribute_dimension(a, c['axis2'], Fake(r, n)).shape[c['axis2']] for r in range(n)]
        require(got == want, lambda: f'shares {got} of {m}, {want} when data are distributed')
    equal(np.concatenate(out, axis=c['axis2']), a, f'array read by {n} processes along axis {c["axis2"]}')
    for r, o in enumerate(out):
        require(o.dtype == a.dtype.newbyteorder('=') or o.dtype == a.dtype, lambda: f'rank {r}: data type {o.dtype} for {a.dtype}')


def roundtrip(c, ctx):
    a = array(c)
    path = os.path.join(ctx.dir(), 'a.npy')
    if c['old'] != 'none':
        np.save(path, np.arange(a.size * 3 + 50 if c['old'] == 'longer' else 1) * 1.5)
    out = ctx.mpi(c['n']).run('files', dict(path=path, full=a, cuts=c['cuts'], axis=c['axis'], orders=c['orders'],
                                            axis2=c['axis2'], counts=c['counts']))
    b = core.load_npy(path, 'saved array')
    equal(b, a, f'file saved by {c["n"]} processes with shares {c["cuts"]} of axis {c["axis"]}')
    require(b.dtype == a.dtype.newbyteorder('=') or b.dtype == a.dtype, lambda: f'data type {b.dtype} in the file, {a.dtype} saved')
    mm = np.load(path, mmap_mode='r') if a.size else a
    head = os.path.getsize(path) - a.nbytes
    require(0 < head < 4096, lambda: f'file of {os.path.getsize(path)} bytes for {a.nbytes} bytes of data')
    equal(np.asarray(mm), a, 'the file mapped into memory')
    require(all(o[1] for o in out), 'array changed by saving it')
    parts(c, [o[0] for o in out], b)
    counts = np.diff(c['cuts'])
    ctx.label('dtype=' + c['dtype'], f'ndim={a.ndim}', 'empty share' if np.any(counts == 0) else 'all have data', 'old=' + c['old'],
              'counts' if c['counts'] else 'default')
    ctx.nontrivial(len(set(counts.tolist())) > 1 or len(set(c['orders'])) > 1)


def loads(c, ctx):
    """files written by numpy"""
    a = array(c)
    if c['forder']:
        a = np.asfortranarray(a)
    path = os.path.join(ctx.dir(), 'a.npy')
    np.save(path, a)
    before = open(path, 'rb').read()
    out = ctx.mpi(c['n']).run('load', dict(path=path, axis=c['axis2'], counts=c['counts']))
    parts(c, out, a)
    require(open(path, 'rb').read() == before, 'file changed by reading it')
    ctx.label('F' if c['forder'] else 'C', 'dtype=' + c['dtype'])
    ctx.nontrivial(a.shape[c['axis2']] % c['n'] != 0 or c['counts'] is not None)


def serial(c, ctx):
    from pyspod.utils import parallel as p
    from pbt.mpijobs import lay
    a = lay(array(c), c['orders'][0])
    path = os.path.join(ctx.dir(), 'a.npy')
    p.npy_save(None, path, a, axis=c['axis'])
    equal(core.load_npy(path), a, 'file saved without communicator')
    b = p.npy_load(None, path, axis=c['axis2'])
    equal(b, a, 'array read without communicator')
    require(b.dtype == a.dtype, lambda: f'data type {b.dtype}, saved {a.dtype}')
    ctx.nontrivial(a.size > 1)


SUBS = [Sub('serial', lambda: cases(1), serial, quick=150, thorough=1500)]
for _n, _q in ((1, 60), (2, 250), (3, 250), (4, 150), (5, 150)):
    SUBS += [Sub(f'roundtrip{_n}', (lambda n: lambda: cases(n))(_n), roundtrip, quick=_q, thorough=30 * _q, slots=_n, case_limit=150,
                 min_nontrivial=0 if _n == 1 else 1),
             Sub(f'load{_n}', (lambda n: lambda: cases(n))(_n), loads, quick=_q, thorough=20 * _q, slots=_n, case_limit=150,
                 min_nontrivial=0 if _n == 1 else 1)]
