"""C21: scaling for emulation is inverted by descaling."""
import numpy as np
from hypothesis import strategies as st
from pbt import core, gen
from pbt.core import Sub, close, require, equal

PROPERTY = 'C21'
RULE = ('random real and complex coefficient matrices with rows of very different size, vanishing rows, purely real or purely '
        'imaginary rows, one row or one time, in every normalisation and letter case; non-trivial = two rows of different '
        'maximum')
ASSUMPTIONS = []


@st.composite
def cases(draw):
    n = draw(gen.tail(1, 6, 60))
    rows = draw(st.lists(st.sampled_from(['plain', 'plain', 'plain', 'big', 'small', 'tiny', 'huge', 'zero', 're', 'im', 'neg', 'spike']),
                         min_size=n, max_size=n))
    return dict(rows=rows, nt=draw(gen.tail(1, 12, 400)), seed=draw(st.integers(0, 2 ** 20)), complex=draw(st.booleans()),
                case=draw(st.sampled_from([0, 0, 1, 2])), norm=draw(st.sampled_from(['localmax', 'globalmax', 'none', None, 'LocalMax',
                                                                                   'GLOBALMAX', 'something'])),
                past=draw(st.lists(st.sampled_from([1e3, 1.0, 1e-3, 0.0]), max_size=2)),
                other=draw(st.booleans()), seed2=draw(st.integers(0, 999)))


def data(c, seed=0):
    rng = np.random.RandomState(c['seed'] + seed)
    out = []
    for k in c['rows']:
        a = rng.standard_normal(c['nt']) + 1j * rng.standard_normal(c['nt'])
        a *= dict(big=1e6, small=1e-7, tiny=1e-30, huge=1e25).get(k, 1)
        if k == 'zero':
            a = a * 0
        elif k == 're':
            a = a.real + 0j
        elif k == 'im':
            a = 1j * a.imag
        elif k == 'neg':
            a = -np.abs(a.real) - 1j * np.abs(a.imag)
        elif k == 'spike':
            a = a * (np.arange(c['nt']) == c['seed'] % c['nt'])
        out.append(a)
    a = np.array(out)
    return a if c['complex'] else a.real.copy()


def model(c):
    from pyspod.emulation.base import Base
    t = 'complex' if c['complex'] else 'real'
    p = dict(data_type=[t, t.upper(), t.capitalize()][c['case']])
    if c['norm'] is not None:
        p['normalization'] = c['norm']
    return Base(p)


def parts(a):
    return [('real part', a.real), ('imaginary part', a.imag)] if np.iscomplexobj(a) else [('value', a)]


def check(c, ctx):
    m = model(c)
    x = data(c)
    keep = x.copy()
    for k, a in enumerate(c['past']):
        # what the object was used for before does not matter
        y = a * data(dict(c, nt=c['nt'] + c['seed'] % 2), 100 + k)
        v = m.scaler(y)
        m.descale_data(m.scale_data(y, vec=v), vec=v)
    vec = m.scaler(x)
    require(np.shape(vec) == (len(x),), lambda: f'normalisation vector of shape {np.shape(vec)} for {x.shape}')
    v0 = np.array(vec)
    s = m.scale_data(x, vec=vec)
    equal(x, keep, 'data after scaling')
    equal(vec, v0, 'vector after scaling')
    core.same_shape(s, x, 'scaled data')
    require(np.all(np.isfinite(s)), lambda: f'scaled data not finite: {s!r:.300}')
    s0 = np.array(s)
    d = m.descale_data(s, vec=vec)
    equal(s, s0, 'scaled data after descaling')
    for (n, a), (_, b) in zip(parts(x), parts(np.asarray(d) if np.iscomplexobj(x) else np.real(d))):
        close(b, a, f'{n} scaled and descaled', rtol=1e-13, scale=np.abs(a))
    norm = (c['norm'] or 'localmax').lower()
    known = norm in ('localmax', 'globalmax')
    for (n, a), (_, b) in zip(parts(x), parts(s)):
        mx = np.abs(a).max(axis=1)
        if known:
            require(np.all(np.abs(b) <= 1 + 1e-12), lambda: f'scaled {n} of size {np.abs(b).max()} with {norm}')
            # one positive factor per row; the same for the rows of equal maximum, or all rows
            if norm == 'globalmax':
                if mx.max() > 0:
                    k = np.abs(b).max() / mx.max()
                    close(b, a * k, f'{n}, global scaling', rtol=1e-12)
                    require(abs(np.abs(b).max() - 1) < 1e-12, lambda: f'largest scaled {n}: {np.abs(b).max()!r}')
            else:
                t = np.abs(b).max(axis=1)
                pos = mx > 0
                if np.any(pos):
                    require(np.ptp(t[pos]) <= 1e-12 and t[pos].min() > 0, lambda: f'largest scaled {n} by row, local scaling: {t}')
                    close(b[pos], a[pos] / mx[pos, None] * t[pos][0], f'{n}, local scaling', rtol=1e-12)
                require(np.all(b[~pos] == 0), f'{n}: vanishing row')
        else:
            equal(b, a, f'{n} without normalisation')
    if norm == 'localmax' and len(x) > 1:
        # rows do not know of each other
        k = c['seed2'] % len(x)
        y = data(c, 31)
        y[k] = x[k]
        vy = m.scaler(y)
        close(vy[k], vec[k], f'scale of row {k} with other rows changed', rtol=1e-15)
        equal(m.scale_data(y, vec=vy)[k], s[k], f'scaled row {k} with other rows changed')
    if c['other'] and known and np.all(np.abs(vec.real) > 0) and (not c['complex'] or np.all(np.abs(vec.imag) > 0)):
        # other data (a test set) by the vector of the training set
        z = data(dict(c, nt=c['nt'] + 3), 5)
        sz = m.scale_data(z, vec=vec)
        dz = m.descale_data(sz, vec=vec)
        for (n, a), (_, b) in zip(parts(z), parts(np.asarray(dz) if np.iscomplexobj(z) else np.real(dz))):
            close(b, a, f'{n} of other data scaled and descaled', rtol=1e-13, scale=np.abs(a))
    ctx.label('norm=' + str(c['norm']), f'complex={c["complex"]}', *('row ' + r for r in c['rows']))
    mx = np.abs(x).max(axis=1)
    ctx.nontrivial(len(x) > 1 and np.ptp(mx) > 0)


def bad(c, ctx):
    from pyspod.emulation.base import Base
    m = Base(dict(data_type=c['bad']))
    x = data(c)
    core.raises(TypeError, lambda: m.scaler(x), f'data type {c["bad"]!r}')
    core.raises(TypeError, lambda: m.scale_data(x, np.ones(len(x))), f'data type {c["bad"]!r}')
    core.raises(TypeError, lambda: m.descale_data(x, np.ones(len(x))), f'data type {c["bad"]!r}')
    ctx.nontrivial()


SUBS = [Sub('scaling', cases, check, quick=2500, thorough=30000),
        Sub('invalid', lambda: st.builds(lambda c, b: dict(c, bad=b), cases(), st.sampled_from(['', 'reals', 'cplx', 'float'])), bad,
            quick=60, thorough=500)]
