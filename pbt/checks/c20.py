"""C20: error norms are norms."""
import numpy as np
from hypothesis import strategies as st
from pbt import core, gen
from pbt.core import Sub, close, require, equal

PROPERTY = 'C20'
RULE = ('random pairs and triples of arrays of one to four dimensions, real, complex, integer or single precision, of mixed '
        'sign and in any memory layout, against the sums written out, and the norm axioms; non-trivial = the arrays differ '
        'at two points at least')
ASSUMPTIONS = ['reference values of relative norms are not zero']

NARROW = ('u1', 'i1', 'i2', 'u4')          # differences leave the range of the type
L = ['l1', 'l2', 'linf', 'l1_rel', 'l2_rel', 'linf_rel']


@st.composite
def cases(draw):
    nd = draw(st.integers(1, 4))
    shape = draw(st.lists(st.integers(1, 6), min_size=nd, max_size=nd))
    shape[draw(st.integers(0, nd - 1))] = draw(gen.tail(1, 6, 1200))
    return dict(shape=shape, seed=draw(st.integers(0, 2 ** 20)),
                kind=draw(st.sampled_from(['float', 'float', 'float', 'complex', 'complex', 'int', 'f32', 'u1', 'i1', 'i2', 'u4'])), norm=draw(st.sampled_from(L)),
                dt=draw(st.sampled_from([1.0, 0.1, 3.0, 1e-3, 1e-7, 1e5])), order=draw(st.sampled_from(['CC', 'FC', 'CF', 'FF', 'VC'])),
                off=draw(st.sampled_from([0.0, 0.0, 100.0])), scale=draw(st.sampled_from([1.0, 1e-6, 1e5])),
                single=draw(st.integers(0, 3)) == 0, factor=draw(st.sampled_from([2.0, -3.0, 0.5])))


def arrays(c):
    rng = np.random.RandomState(c['seed'])

    def one():
        a = rng.standard_normal(c['shape']) * 4
        if c['kind'] == 'complex':
            a = a + 4j * rng.standard_normal(c['shape'])
        if c['kind'] == 'int':
            return rng.randint(-9, 10, c['shape'])
        if c['kind'] in NARROW:
            # the whole range of the type
            i = np.iinfo(c['kind'])
            return rng.randint(i.min, int(i.max) + 1, c['shape']).astype(c['kind'])
        a = a * c['scale'] + c['off'] * c['scale']
        return a.astype(np.float32) if c['kind'] == 'f32' else a
    r = one()
    # no zeros in the reference
    r = np.where(r == 0, r.dtype.type(1), r)
    b, d = one(), one()
    if c['single']:
        # one single value differs
        b = r.copy()
        k = rng.randint(b.size)
        b.ravel()[k] = b.ravel()[k] - 1 if b.ravel()[k] > 0 else b.ravel()[k] + 1
    return r, b, d


def lay(a, o):
    if o == 'F':
        return np.asfortranarray(a)
    if o == 'V':
        z = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
        z[..., ::2] = a
        return z[..., ::2]
    return a.copy()


def expected(b, r, norm):
    e = np.abs(b.astype(complex) - r.astype(complex))
    if norm.endswith('_rel'):
        e = e / np.abs(r.astype(complex))
    k = norm.split('_')[0]
    return dict(l1=e.sum() / e.size, l2=np.sqrt((e ** 2).sum()) / e.size, linf=e.max())[k]


def lnorm(c, ctx):
    from pyspod.utils.errors import compute_l_errors as f
    r, b, d = arrays(c)
    n = c['norm']
    tol = 3e-5 if c['kind'] == 'f32' else 1e-11
    B, R = lay(b, c['order'][0]), lay(r, c['order'][1])
    got = f(B, R, norm_type=n)
    equal(B, b, 'data'), equal(R, r, 'reference')
    require(np.ndim(got) == 0 and np.isreal(got), lambda: f'{n}: {got!r}')
    e = expected(b, r, n)
    sc = np.abs(b.astype(complex)).max() + np.abs(r.astype(complex)).max()
    if n.endswith('_rel'):
        sc = sc / np.abs(r.astype(complex)).min()
    close(got, e, n, rtol=tol, atol=1e-15 * sc if c['kind'] != 'f32' else 1e-6 * sc)
    require(float(f(r.copy(), r, norm_type=n)) == 0, lambda: f'{n} of equal arrays: {f(r.copy(), r, norm_type=n)!r}')
    if np.any(b != r):
        require(got > 0, f'{n}: zero for different arrays')
    require(got >= 0, lambda: f'{n}: negative, {got!r}')
    if n == 'l2':
        close(f(B, R), got, 'default norm', rtol=1e-15)
    if c['kind'] == 'float':
        k = c['factor']
        h = f(r + k * (b - r), r, norm_type=n)
        close(h, abs(k) * got, f'{n}: {k} times the difference', rtol=1e-10, atol=1e-13 * sc * (1 + abs(k)))
        if not n.endswith('_rel'):
            close(f(r, b, norm_type=n), got, f'{n}: arrays exchanged', rtol=1e-12)
            t = f(b, d, norm_type=n) + f(d, r, norm_type=n)
            require(got <= t * (1 + 1e-12), lambda: f'{n}: triangle inequality, {got} > {t}')
            p = np.random.RandomState(1).permutation(b.size)
            close(f(b.ravel()[p], r.ravel()[p], norm_type=n), got, f'{n}: points in another order', rtol=1e-12)
    ctx.label(n, 'kind=' + c['kind'], 'order=' + c['order'])
    ctx.nontrivial(np.sum(b != r) >= 2)


def hnorm(c, ctx):
    from pyspod.utils.errors import compute_h_errors as f
    r, b, d = arrays(c)
    dt = c['dt']
    tol = 1e-4 if c['kind'] == 'f32' else 1e-10
    B, R = lay(b, c['order'][0]), lay(r, c['order'][1])
    got = f(B, R, dt, norm_type='h1') if c['seed'] % 2 else f(B, R, dt)
    equal(B, b, 'data'), equal(R, r, 'reference')
    D = np.diff(b.astype(complex) - r.astype(complex), axis=0) / dt
    e = np.sqrt(dt * np.sum(np.abs(D) ** 2))
    sc = (np.abs(b.astype(complex)).max() + np.abs(r.astype(complex)).max()) / np.sqrt(dt)
    close(got, e, 'h1', rtol=tol, atol=sc * (1e-5 if c['kind'] == 'f32' else 1e-13) * np.sqrt(b.size))
    require(np.isreal(got) and got >= 0, lambda: f'h1: {got!r}')
    require(float(f(r.copy(), r, dt)) == 0, 'h1 of equal arrays')
    if c['kind'] == 'float':
        at = sc * 1e-12 * np.sqrt(b.size)
        close(f(R, B, dt), got, 'h1: arrays exchanged', rtol=1e-10, atol=at)
        k = c['factor']
        close(f(r + k * (b - r), r, dt), abs(k) * got, f'h1: {k} times the difference', rtol=1e-10, atol=at * (1 + abs(k)))
        close(f(b + 3 * c['scale'], r, dt), got, 'h1: a constant added', rtol=1e-9, atol=at * 10)
        t = f(b, d, dt) + f(d, r, dt)
        require(got <= t * (1 + 1e-10) + at, lambda: f'h1: triangle inequality, {got} > {t}')
    ctx.label('kind=' + c['kind'], f'nt={min(c["shape"][0], 3)}')
    ctx.nontrivial(e > 0)


def unknown(c, ctx):
    from pyspod.utils.errors import compute_h_errors, compute_l_errors
    r, b, _ = arrays(c)
    core.raises(ValueError, lambda: compute_l_errors(b, r, norm_type=c['bad']), f'norm {c["bad"]!r}')
    core.raises(ValueError, lambda: compute_h_errors(b, r, 1.0, norm_type=c['bad']), f'norm {c["bad"]!r}')
    ctx.nontrivial()


SUBS = [Sub('l', cases, lnorm, quick=1500, thorough=20000), Sub('h', cases, hnorm, quick=1000, thorough=15000),
        Sub('unknown', lambda: st.builds(lambda c, b: dict(c, bad=b), cases(), st.sampled_from(['l3', 'h2', '', 'L_2', 'l2_abs', 'h1_rel'])),
            unknown, quick=60, thorough=600)]
