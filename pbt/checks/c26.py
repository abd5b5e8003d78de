"""C26: energy spectrum of a coefficient series."""
import numpy as np
from hypothesis import strategies as st
from pbt import core, gen
from pbt.core import Sub, close, require, equal

PROPERTY = 'C26'
RULE = ('random real, complex, integer and constant series, pure oscillations of every frequency, amplitude and phase, of every '
        'length, against sums of cosines and sines; shifts, reversals and multiples of the series; non-trivial = a frequency '
        'with energy')
ASSUMPTIONS = []


@st.composite
def cases(draw):
    return dict(n=draw(st.one_of(st.integers(3, 40), gen.tail(1, 200, 5000, 4))), seed=draw(st.integers(0, 2 ** 20)),
                kind=draw(st.sampled_from(['noise', 'noise', 'waves', 'constant', 'int', 'float32', 'spike'])), complex=draw(st.booleans()),
                amp=draw(st.sampled_from([1.0, 1e-5, 1e4])), mean=draw(st.sampled_from([0.0, 3.0])), shift=draw(st.integers(0, 200)),
                factor=draw(st.sampled_from([2.0, -3.0, 1e-3])), strided=draw(st.booleans()), row=draw(st.booleans()))


def series(c):
    rng = np.random.RandomState(c['seed'])
    n = c['n']
    u = rng.standard_normal(n)
    if c['complex']:
        u = u + 1j * rng.standard_normal(n)
    if c['kind'] == 'waves':
        u = u * 0.01 + np.cos(2 * np.pi * rng.randint(0, n) * np.arange(n) / n + 1)
    elif c['kind'] == 'constant':
        u = np.full(n, u[0])
    elif c['kind'] == 'spike':
        u = u * (np.arange(n) == n // 2)
    u = u * c['amp'] + c['mean']
    if c['kind'] == 'int':
        u = np.round(u.real * 20).astype(int)
    elif c['kind'] == 'float32':
        u = u.astype(np.complex64 if c['complex'] else np.float32)
    if c['row']:
        u = np.vstack([u, u * 2])[0, :]                     # a row of coefficients
    if c['strided']:
        u = np.repeat(u, 3)[::3]
    return u


def spectrum(u):
    """Half the squared modulus of the Fourier coefficients, by their definition, mean over both signs."""
    u = np.asarray(u, dtype=complex)
    n = len(u)
    t = np.arange(n)
    def half(k):
        return 0.5 * abs(np.sum(u * np.exp(-2j * np.pi * ((k * t) % n) / n)) / n) ** 2
    return np.array([0.0] + [0.5 * (half(k) + half(-k)) for k in range(1, n // 2)])[:n // 2]


def check(c, ctx):
    from pyspod.utils.postproc import compute_energy_spectrum as f
    u = series(c)
    keep = u.copy()
    got = f(u)
    equal(u, keep, 'series after its spectrum')
    want = spectrum(u)
    core.same_shape(got, want, 'spectrum')
    require(np.isrealobj(got), 'complex spectrum')
    tot = np.mean(np.abs(u.astype(complex)) ** 2)
    tol = 1e-5 if c['kind'] == 'float32' else 1e-12
    sc = tol * tot + 1e-300
    close(got, want, 'spectrum', rtol=1e-9 if tol < 1e-6 else 1e-4, atol=sc)
    require(np.all(got >= 0), lambda: f'negative energy {np.min(got)}')
    if c['kind'] not in ('int', 'float32'):
        close(f(u * c['factor']), got * c['factor'] ** 2, 'spectrum of a multiple', rtol=1e-9, atol=sc * c['factor'] ** 2)
        close(f(np.roll(u, c['shift'])), got, 'spectrum of the shifted series', rtol=1e-8, atol=sc)
        close(f(u[::-1]), got, 'spectrum of the reversed series', rtol=1e-8, atol=sc)
        close(f(np.conj(u)), got, 'spectrum of the conjugate series', rtol=1e-8, atol=sc)
    ctx.label(c['kind'], f'complex={np.iscomplexobj(u)}', 'odd' if c['n'] % 2 else 'even')
    ctx.nontrivial(len(got) > 2 and np.any(want > 1e-6 * tot))


@st.composite
def waves(draw):
    n = draw(gen.tail(4, 150, 2000))
    return dict(n=n, k=draw(st.integers(1, max(1, n // 2 - 1))), phase=draw(st.floats(0, 6.28)), amp=draw(st.sampled_from([1.0, 2.5, 1e-4, 1e5])),
                mean=draw(st.sampled_from([0.0, 1.0])), complex=draw(st.booleans()))


def wave(c, ctx):
    """A pure oscillation has its energy at its frequency, a quarter... of its squared amplitude by the definition."""
    from pyspod.utils.postproc import compute_energy_spectrum as f
    t = np.arange(c['n'])
    a = 2 * np.pi * c['k'] * t / c['n'] + c['phase']
    u = c['amp'] * (np.exp(1j * a) if c['complex'] else np.cos(a)) + c['mean'] * c['amp']
    e = f(u)
    k = c['k']
    require(int(np.argmax(e)) == k, lambda: f'peak at {np.argmax(e)}, oscillation at {k} of {c["n"]}')
    close(e[k], c['amp'] ** 2 * (0.25 if c['complex'] else 0.125), 'energy of the oscillation', rtol=1e-9)
    rest = np.delete(e, k)
    require(rest.size == 0 or rest.max() < 1e-18 * c['amp'] ** 2, lambda: f'energy elsewhere: {rest.max()}')
    ctx.label(f'complex={c["complex"]}')
    ctx.nontrivial()


SUBS = [Sub('spectrum', cases, check, quick=2500, thorough=30000),
        Sub('wave', waves, wave, quick=1000, thorough=10000)]
