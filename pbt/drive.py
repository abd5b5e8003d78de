"""Drives the package's public API."""
import os
import numpy as np
from pbt import gen, core, ref


def bare(w, c):
    """weights as an array in some cases, as a dictionary with their name in others"""
    return w['weights'] if isinstance(w, dict) and c.get('seed', 0) % 3 == 2 else w


def standard(c, savedir, data=None, weights='case', comm=None, variables=None, **over):
    from pyspod.spod.standard import Standard
    p = gen.params_of(c, savedir)
    p.update(over)
    w = gen.make_weights(c) if isinstance(weights, str) else weights
    s = Standard(params=p, weights=bare(w, c), comm=comm)
    if data is None:
        data = [gen.make_data(c)]
    if variables is not None:
        return s.fit(data_list=data, variables=variables)
    return s.fit(data_list=data)


def streaming(c, savedir, data=None, weights='case', comm=None, **over):
    from pyspod.spod.streaming import Streaming
    p = gen.params_of(c, savedir)
    p.update(over)
    w = gen.make_weights(c) if isinstance(weights, str) else weights
    s = Streaming(params=p, weights=bare(w, c), comm=comm)
    return s.fit(data_list=[gen.make_data(c)] if data is None else data)


def results_dir(c, savedir):
    return os.path.join(savedir, f'nfft{c["n_dft"]}_novlp{gen.n_overlap_of(c)}_nblks{gen.n_blocks_of(c)}')


def data_for_ref(c):
    """what the package sees: data cast to the working precision"""
    x = gen.full_data(c) if not c.get('f32') else gen.make_data(dict(c, squeeze=False))
    if c.get('dtype') == 'single':
        x = x.astype(np.complex64 if c.get('complex') else np.float32)
    return x.astype(np.complex128 if c.get('complex') else np.float64)


def reference(c, onesided=True):
    x = data_for_ref(c)
    return ref.Spod(x, gen.full_weights(c), c['dt'], c['n_dft'], gen.n_overlap_of(c), c['mean_type'],
                    not c.get('complex', False), c.get('fullspectrum', False), c.get('normalize_data', False),
                    c.get('normalize_weights', False), onesided)


def modes_of(rdir, f, c=None):
    """stored modes of frequency f, (n_points*nv, n_modes)"""
    m = core.load_npy(os.path.join(rdir, 'modes', f'freq_idx_{f:08d}.npy'), 'modes')
    if c is not None:
        n = min(c['n_modes_save'], gen.n_blocks_of(c))
        core.same_shape(m, np.empty(tuple(c['xshape']) + (c['nv'], n)), f'modes of frequency {f}')
    return m.reshape(-1, m.shape[-1])


def eps_of(c):
    return 6e-8 if (c.get('dtype') == 'single') else 1.2e-16


def in_eps(c):
    """conditioning of removing a mean much larger than the fluctuations"""
    return 1.0


def snapshot_tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def pseudo(c):
    return not c.get('complex', False)


# ------------------------------------------------------------------------------------------------ POD
def pod_params(c, savedir):
    p = dict(time_step=c['dt'], n_space_dims=len(c['xshape']), n_variables=c['nv'], savedir=savedir)
    for k in ('mean_type', 'normalize_weights', 'n_modes_save', 'dtype'):
        if c.get(k) is not None and not gen.left_out(c, k):
            p[k] = c[k]
    return gen.typed(p, c)


def pod(c, savedir, data, weights=None, comm=None):
    """(fitted model, directory of its results)"""
    from pyspod.pod.standard import Standard
    s = Standard(params=pod_params(c, savedir), weights=bare(weights, c), comm=comm).fit(data_list=data)
    return s, pod_dir(savedir)


def pod_results(s):
    """results folder of a fitted POD model; without use of private attributes"""
    d = os.path.join(str(s.savedir), f'modes{int(s.n_modes_save)}')
    if os.path.isfile(os.path.join(d, 'modes.npy')):
        return d
    found = [r for r, _, fs in os.walk(str(s.savedir)) if 'modes.npy' in fs]
    core.require(found, lambda: f'no POD modes in {s.savedir}')
    return max(found, key=lambda r: os.stat(os.path.join(r, 'modes.npy')).st_mtime_ns)


def pod_dir(savedir):
    found = [r for r, _, fs in os.walk(savedir) if 'modes.npy' in fs]
    core.require(len(found) == 1, lambda: f'POD modes found in {found}')
    return found[0]
