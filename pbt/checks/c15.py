"""C15: geographic weights are trapezoidal area weights on the sphere."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, drive, core
from pbt.core import Sub, close, require, equal

PROPERTY = 'C15'
RULE = ('random grid sizes, radii, numbers of variables and levels, against the cosine of latitude times the spacings; fits '
        'with these weights against the reference SPOD; non-trivial = at least two positive weights')
ASSUMPTIONS = ['the first meridian has weight zero, as in the published code and the pinned tests']


@st.composite
def grids(draw, small=False):
    return dict(n1=draw(st.integers(3, 9 if small else 80)), n2=draw(st.integers(1, 6 if small else 60)),
                n3=draw(st.integers(1, 3 if small else 6)), nv=draw(st.integers(1, 4)),
                R=draw(st.sampled_from([None, 1, 2, 6371.0, 0.5])), d3=draw(st.booleans()), seed=draw(st.integers(0, 9999)))


def want(c):
    lat = np.deg2rad(np.linspace(-90, 90, c['n1']))
    d = np.full(c['n1'], np.pi / (c['n1'] - 1))
    d[[0, -1]] /= 2
    dl = np.full(c['n2'], 2 * np.pi / c['n2'])
    dl[0] = 0
    a = (c['R'] or 1) ** 2 * np.outer(np.abs(np.cos(lat)) * d, dl)
    if c['d3']:
        a = np.repeat(a[..., None], c['n3'], -1)
    return np.repeat(a[..., None], c['nv'], -1)


def call(c):
    import pyspod.utils.weights as uw
    k = {} if c['R'] is None else {'R': c['R']}
    if c['d3']:
        return uw.geo_trapz_3D(c['n1'], c['n2'], c['n3'], c['nv'], **k)
    return uw.geo_trapz_2D(c['n1'], c['n2'], c['nv'], **k)


def grid(c, ctx):
    r = call(c)
    require(isinstance(r, dict) and isinstance(r.get('weights_name'), str) and r['weights_name'], lambda: f'returned {r!r:.80}')
    w = np.asarray(r['weights'])
    e = want(c)
    require(w.shape == e.shape or (c['nv'] == 1 and w.shape == e.shape[:-1]), lambda: f'weights of shape {w.shape}, grid {e.shape}')
    close(w.reshape(e.shape), e, 'weights', rtol=1e-12, scale=e.max() if e.size else 1)
    require(np.all(w >= 0), 'negative weights')
    # metamorphic: radius, area of the sphere covered
    if c['R'] is not None:
        u = np.asarray(call(dict(c, R=None))['weights'])
        close(w, u * c['R'] ** 2, f'weights for radius {c["R"]}', rtol=1e-13)
    close(w.reshape(e.shape), w.reshape(e.shape)[::-1], 'symmetry about the equator', rtol=1e-11, scale=e.max())
    if c['n1'] >= 20 and c['n2'] >= 2:
        area = 4 * np.pi * (c['R'] or 1) ** 2 * (c['n2'] - 1) / c['n2']
        tot = w.reshape(e.shape)[..., 0].sum() / (c['n3'] if c['d3'] else 1)
        require(abs(tot / area - 1) < 0.01, lambda: f'total weight {tot}, area {area}')
    ctx.label('3D' if c['d3'] else '2D', f'nv={c["nv"]}')
    ctx.nontrivial(np.sum(w > 0) >= 2)


def fit(c, ctx):
    e = want(c)
    case = dict(seed=c['seed'], nt=48, xshape=list(e.shape[:-1]), nv=c['nv'], n_dft=8, dt=1.0, overlap=50, n_modes_save=3,
                kind='noise', mean_type='longtime')
    s = drive.standard(case, ctx.dir(), weights=call(c))
    R = ref.Spod(gen.full_data(case), e, 1.0, 8, 4, 'longtime', True, False, False, False, True)
    close(np.asarray(s.eigs), R.eigs, 'eigenvalues of the fit with these weights', rtol=1e-9, scale=R.eigs.max())
    ctx.label('3D' if c['d3'] else '2D', f'nv={c["nv"]}')
    ctx.nontrivial(R.eigs.max() > 0)


SUBS = [Sub('grids', grids, grid, quick=400, thorough=6000),
        Sub('fits', lambda: grids(small=True), fit, quick=80, thorough=1500)]
