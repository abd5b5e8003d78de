"""C18: partitioning covers every index once; reductions equal serial ones."""
import numpy as np
from hypothesis import strategies as st
from pbt import core, gen
from pbt.core import Sub, close, require, equal

PROPERTY = 'C18'
RULE = ('arrays of one to four dimensions of any extent (also fewer entries than processes) distributed over 1 to 6 processes; '
        'random sums, means and variances of arrays that are cut anyhow (empty parts included); process grids of 1 to 6 '
        'processes; partition formula for any number of simulated processes; non-trivial = an extent that does not divide '
        'evenly, or unequal parts')
ASSUMPTIONS = ['Open MPI is trusted']

TYPES = ['<f8', '<f4', '<c16', '<c8', '<i8', '<i4', '>f8', '>c16']


@st.composite
def splits(draw, n):
    nd = draw(st.integers(1, 4))
    shape = draw(st.lists(st.integers(1, 9), min_size=nd, max_size=nd))
    if draw(st.integers(0, 3)) == 0:
        shape[draw(st.integers(0, nd - 1))] = draw(gen.tail(1, 70, 3000, 3))
    return dict(n=n, shape=shape, nt=draw(st.integers(1, 12)), axis=draw(st.integers(0, nd - 1)), seed=draw(st.integers(0, 9999)),
                dtype=draw(st.sampled_from(TYPES)))


def shares(out, full, ax, what):
    got = [o.shape[ax] for o in out]
    require(sum(got) == full.shape[ax] and max(got) - min(got) <= 1, lambda: f'{what}: shares {got} of {full.shape[ax]}')
    equal(np.concatenate(out, axis=ax), full, f'{what}: shares put together along axis {ax}')


def split(c, ctx):
    rng = np.random.RandomState(c['seed'])
    full = (rng.standard_normal(c['shape']) * 100).astype(c['dtype'])
    data = (rng.standard_normal([c['nt']] + c['shape']) * 100).astype(c['dtype'])
    out = ctx.mpi(c['n']).run('split', dict(full=full, data=data, axis=c['axis']))
    big = max(c['shape'])
    for r, ((_, ax, sh), (_, bx, bh), _) in enumerate(out):
        for what, a, s in (('distribute', ax, sh), ('distribute_data', bx, bh)):
            require(s == tuple(c['shape']), lambda: f'{what}: global shape {s} on rank {r}, of {c["shape"]}')
            require(c['shape'][a] == big, lambda: f'{what}: axis {a} of {c["shape"]} is not the largest')
            require(a == (out[0][0][1] if what == 'distribute' else out[0][1][1]), f'{what}: ranks chose different axes')
    shares([o[0][0] for o in out], full, out[0][0][1], 'distribute')
    shares([o[1][0] for o in out], data, out[0][1][1] + 1, 'distribute_data')
    shares([o[2] for o in out], full, c['axis'], 'distribute_dimension')
    # all three cut a given extent at the same places
    if out[0][0][1] == c['axis']:
        for r, o in enumerate(out):
            equal(o[0][0], o[2], f'rank {r}: share by distribute and by distribute_dimension')
    ctx.label('uneven' if big % c['n'] else 'even', 'empty share' if big < c['n'] else 'all have data')
    ctx.nontrivial(c['n'] > 1 and (big % c['n'] != 0 or c['shape'][c['axis']] % c['n'] != 0))


class Fake:
    """a communicator as far as partitioning needs one"""
    def __init__(self, rank, size):
        self.rank, self.size = rank, size

    def Barrier(self):
        pass

    barrier = Barrier

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size


@st.composite
def manies(draw):
    return dict(N=draw(st.integers(1, 400)), size=draw(st.integers(1, 64)), other=draw(st.integers(1, 3)), pos=draw(st.booleans()))


def many(c, ctx):
    """as many processes as one likes, simulated"""
    from pyspod.utils import parallel as p
    full = np.arange(c['N'] * c['other'])
    full = full.reshape(c['other'], c['N']) if c['pos'] else full.reshape(c['N'], c['other'])
    ax = 1 if c['pos'] else 0
    shares([p.distribute_dimension(full, ax, Fake(r, c['size'])) for r in range(c['size'])], full, ax, 'distribute_dimension')
    d = np.stack([full, -full, full * 2])
    o = [p.distribute_data(d, Fake(r, c['size'])) for r in range(c['size'])]
    shares([np.asarray(v[0]) for v in o], d, o[0][1] + 1, 'distribute_data')
    o = [p.distribute(full, Fake(r, c['size'])) for r in range(c['size'])]
    shares([v[0] for v in o], full, o[0][1], 'distribute')
    ctx.nontrivial(c['N'] % c['size'] != 0)


def alone(c, ctx):
    """without communicator: the whole array, sums unchanged"""
    from pyspod.utils import parallel as p
    rng = np.random.RandomState(c['seed'])
    full = (rng.standard_normal(c['shape']) * 100).astype(c['dtype'])
    data = (rng.standard_normal([c['nt']] + c['shape']) * 100).astype(c['dtype'])
    a, ax, sh = p.distribute(full, None)
    b, bx, bh = p.distribute_data(data, None)
    require(tuple(sh) == full.shape and tuple(bh) == full.shape, lambda: f'global shapes {sh}, {bh}, of {full.shape}')
    require(full.shape[ax] == max(full.shape) and full.shape[bx] == max(full.shape), 'not the largest axis')
    for g, w in ((a, full), (b, data), (p.distribute_dimension(full, c['axis'], None), full), (p.allreduce(full, None), full)):
        equal(g, w, 'array without communicator')
    p.barrier(None)
    ctx.nontrivial(full.size > 1)


@st.composite
def sums(draw, n):
    nd = draw(st.integers(1, 3))
    return dict(n=n, shape=draw(st.lists(st.integers(1, 6), min_size=nd, max_size=nd)), dtype=draw(st.sampled_from(TYPES)),
                counts=draw(st.lists(st.integers(0, 12), min_size=n, max_size=n)), many=draw(st.sampled_from([1, 1, 1, 40])), seed=draw(st.integers(0, 99999)),
                mean=draw(st.sampled_from([0.0, 0.0, 1.0, -50.0, 1e4])), spread=draw(st.sampled_from([1.0, 1e-3, 1e3])),
                vtype=draw(st.sampled_from(['<f8', '<f8', '<c16', '<f4'])), drift=draw(st.booleans()))


def reduce(c, ctx):
    rng = np.random.RandomState(c['seed'])
    n = c['n']

    def rand(shape, t):
        a = rng.standard_normal(shape) * 100
        if np.dtype(t).kind == 'c':
            a = a + 100j * rng.standard_normal(shape)
        return a.astype(t)
    parts = [rand(c['shape'], c['dtype']) for _ in range(n)]
    v = []
    for r in range(n):
        k = c['counts'][r] * c['many']
        a = rng.standard_normal(k) * c['spread'] + c['mean'] + (r * c['spread'] * 3 if c['drift'] else 0)
        if c['vtype'] == '<c16':
            a = a + 1j * rng.standard_normal(k) * c['spread']
        v.append(a.astype(c['vtype']))
    if sum(c['counts']) == 0:
        raise core.Skip
    out = ctx.mpi(n).run('reduce', dict(parts=parts, var=v))
    native = np.dtype(c['dtype']).newbyteorder('=')
    want = np.sum([p.astype(native).astype('c16' if native.kind == 'c' else 'f8' if native.kind == 'f' else 'i8') for p in parts], axis=0)
    eps = np.finfo(native).eps if native.kind in 'fc' else 0
    scale = np.sum([np.abs(p) for p in parts], axis=0)
    every = np.concatenate(v).astype('c16' if c['vtype'] == '<c16' else 'f8')
    ve = 2e-4 if c['vtype'] == '<f4' else 1e-11
    for r, (s, (var, m, k), same) in enumerate(out):
        w = f'rank {r} of {n}: '
        require(same, w + 'array changed by the reduction')
        require(s.dtype == native or s.dtype == np.dtype(c['dtype']), lambda: f'{w}data type {s.dtype} of the sum')
        close(s, want, w + 'sum', rtol=n * eps * 2, scale=scale)
        require(k == every.size, lambda: f'{w}{k} values counted, of {every.size}')
        sc = np.abs(every).max()
        close(m, every.mean(), w + 'mean', rtol=ve, scale=sc)
        dev = np.abs(every - every.mean()).max()
        close(var, every.var(), w + 'variance', rtol=ve, scale=every.var() + (dev * sc if c['vtype'] == '<f4' else 1e-4 * sc * sc))
        require(var.imag == 0 if isinstance(var, complex) else True, w + 'complex variance')
    ctx.label('dtype=' + c['dtype'], 'var ' + c['vtype'], 'empty part' if 0 in c['counts'] else 'all have data')
    ctx.nontrivial(len(set(c['counts'])) > 1 or n == 1)


def groups(c, ctx):
    n = c['n']
    out = ctx.mpi(n).run('subcomm', dict(n=n))
    g = out[0]['groups']
    require(all(o['groups'] == g for o in out), 'ranks disagree about the number of groups')
    require(g >= 1 and n % g == 0, lambda: f'{g} groups of {n} processes')
    members = {}
    for r, o in enumerate(out):
        require(0 <= o['mine'] < g, lambda: f'rank {r} in group {o["mine"]} of {g}')
        members.setdefault(o['mine'], []).append(r)
    require(sorted(members) == list(range(g)), lambda: f'groups {sorted(members)} of {g}')
    for k, m in members.items():
        require(len(m) == n // g, lambda: f'group {k} has {len(m)} of {n} processes, in {g} groups')
        for r in m:
            o = out[r]
            require(o['size'] == len(m) and sorted(o['ranks']) == m, lambda: f'group {k} of ranks {m} communicates among {o["ranks"]}')
            require(o['sum'] == sum(m), lambda: f'sum over group {k}: {o["sum"]} instead of {sum(m)}')
            require(o['ranks'][o['rank']] == r, lambda: f'rank {r} is {o["ranks"][o["rank"]]} in its group')
    ctx.nontrivial(True)


SUBS = [Sub('simulated', manies, many, quick=200, thorough=3000),
        Sub('alone', lambda: splits(1), alone, quick=150, thorough=1500)]
for _n, _q in ((1, 20), (2, 200), (3, 200), (4, 120), (5, 150), (6, 100)):
    SUBS += [Sub(f'split{_n}', (lambda n: lambda: splits(n))(_n), split, quick=_q, thorough=30 * _q, slots=_n, case_limit=150,
                 min_nontrivial=0 if _n == 1 else 1),
             Sub(f'reduce{_n}', (lambda n: lambda: sums(n))(_n), reduce, quick=_q, thorough=30 * _q, slots=_n, case_limit=150),
             Sub(f'groups{_n}', (lambda n: lambda: st.just(dict(n=n)))(_n), groups, quick=1, thorough=1, slots=_n, case_limit=150)]
SUBS.append(Sub('groups8', lambda: st.just(dict(n=8)), groups, quick=1, thorough=1, slots=8, case_limit=150))
