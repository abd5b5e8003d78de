"""Jobs run in lockstep by every rank of a group (see mpipool): fn(comm, **args) -> picklable result."""
import os
import numpy as np
from pbt import gen, core, drive


def ping(comm):
    return comm.allreduce(1)


def standard(comm, c, savedir, over=None):
    s = drive.standard(c, savedir, comm=comm, **(over or {}))
    return fitted(s)


def fitted(s):
    return dict(eigs=np.array(s.eigs), freq=np.array(s.freq), rdir=s.savedir_sim, n_blocks=int(s.n_blocks),
                n_modes_save=int(s.n_modes_save), nt=int(s.nt), nx=int(s.nx), xshape=tuple(int(i) for i in s.xshape),
                shape=tuple(int(i) for i in s.shape))


def retrieve(comm, rdir, freqs, cwd=None):
    """everything a process that has only the results directory gets"""
    import pyspod.utils.postproc as post
    here = os.getcwd()
    if cwd:
        os.chdir(cwd)
    try:
        with np.load(os.path.join(rdir, 'eigs_freq.npz')) as z:
            ef = {k: z[k] for k in z.files}
        out = dict(modes={f: np.array(post.get_modes_at_freq(rdir, f)) for f in freqs},
                   all=np.array(post.get_all_modes(rdir)), eigs=ef['eigs'], freq=ef['freq'], ef=ef,
                   weights=np.array(post.get_data_from_file(os.path.join(rdir, 'weights.npy'))),
                   ltm=np.array(post.get_data_from_file(os.path.join(rdir, 'ltm_modes.npy'))),
                   params=core.load_yaml(os.path.join(rdir, 'params_modes.yaml')), cwd=os.getcwd())
        return out
    finally:
        os.chdir(here)


class _Np:
    """numpy whose int32 ends early: takes the reader through the exchange meant for more than 2^31 numbers"""
    def __init__(self, np, limit):
        self._np, self._limit = np, limit

    def __getattr__(self, k):
        return getattr(self._np, k)

    def iinfo(self, t):
        i = self._np.iinfo(t)

        class I:
            max, min, bits, dtype = self._limit, i.min, i.bits, i.dtype
        return I


def fit_files(comm, c, files, variables, savedir, over=None, small_int=None, nchunks=None):
    """a fit on files, optionally through the padded exchange and with the data cut in several chunks"""
    import pyspod.utils.reader as rd
    from pyspod.spod.standard import Standard
    saved_np, saved_init = rd.np, {}
    try:
        if small_int is not None:
            rd.np = _Np(saved_np, small_int)
        if nchunks is not None:
            for name in ('reader_2stage', 'reader_mat'):
                k = getattr(rd, name)
                saved_init[k] = k.__init__

                def init(self, *a, _f=k.__init__, **kw):
                    _f(self, *a, **kw)
                    if hasattr(self, '_nchunks'):
                        self._nchunks = nchunks
                k.__init__ = init
        p = gen.params_of(c, savedir)
        p.update(savefreq_disk=False, savefreq_disk2=True)
        p.update(over or {})
        s = Standard(params=p, weights=drive.bare(gen.make_weights(c), c), comm=comm)
        s = s.fit(data_list=files, variables=variables) if variables is not None else s.fit(data_list=files)
        return fitted(s)
    finally:
        rd.np = saved_np
        for k, f in saved_init.items():
            k.__init__ = f


def post(comm, c, rdir, raw, kw, tidx, sub, conv, pairs, f, via):
    """coefficients, reconstruction and inner products of modes on stored results"""
    import pyspod.spod.utils as us
    fn = us.compute_coeffs_conv if conv else us.compute_coeffs_op
    keep = np.array(raw)
    file, cdir = fn(raw, results_dir=rdir, savedir=sub, comm=comm, **kw)
    rfile, rd = us.compute_reconstruction(coeffs_dir=cdir, time_idx=tidx, comm=comm)
    orth = []
    for i, j in pairs:
        ok, o = us.check_orthogonality(rdir, i, j, [f], comm=comm)
        orth.append((bool(np.all(ok)), complex(np.ravel(o)[0])))
    return dict(file=file, cdir=cdir, rfile=rfile, rd=rd, orth=orth, same=bool(np.array_equal(keep, raw)))


def fit_post(comm, c, savedir, tidx, conv, second=None):
    """everything through the methods of one model"""
    import pyspod.spod.utils as us
    s = drive.standard(c, savedir, comm=comm)
    raw = gen.make_data(c)
    if conv:
        file, cdir = us.compute_coeffs_conv(raw, results_dir=s.savedir_sim, comm=comm)
        rfile, _ = us.compute_reconstruction(coeffs_dir=cdir, time_idx=tidx, comm=comm)
    else:
        file, cdir = s.compute_coeffs_op(raw, results_dir=s.savedir_sim)
        rfile, _ = s.compute_reconstruction(coeffs_dir=cdir, time_idx=tidx)
    return dict(fitted(s), file=file, rfile=rfile, cdir=cdir)


def streaming(comm, c, savedir, data, weights):
    return fitted(drive.streaming(c, savedir, data=data, weights=weights, comm=comm))


def pod(comm, c, savedir, data, weights, raw, tidx, midx):
    from pyspod.pod.standard import Standard
    s = Standard(params=drive.pod_params(c, savedir), weights=drive.bare(weights, c), comm=comm).fit(data_list=data)
    comm.Barrier()
    rdir = drive.pod_dir(savedir)
    out = dict(eigs=np.array(s.eigs), nt=int(s.nt), nx=int(s.nx), xshape=tuple(int(i) for i in s.xshape), rdir=rdir)
    out['file'], out['cdir'] = s.compute_coeffs_op(raw, results_dir=rdir, modes_idx=midx)
    out['rfile'], _ = s.compute_reconstruction(coeffs_dir=out['cdir'], time_idx=tidx)
    return out


def normalize(comm, data, weights, nv, method, cuts, axis, chunks=None):
    """data, weights: the whole arrays; each rank takes its part along the given spatial (or variable) axis"""
    from pyspod.utils.weights import apply_normalization
    lo, hi = cuts[comm.rank], cuts[comm.rank + 1]
    d = np.take(data, range(lo, hi), axis=axis + 1)
    w = np.take(weights, range(lo, hi), axis=axis)
    keep = d.copy(), w.copy()
    arg = d
    if chunks is not None:
        arg = {i: {'s': a, 'e': b, 'v': d[a:b]} for i, (a, b) in enumerate(zip(chunks, chunks[1:]))}
    r = apply_normalization(data=arg, weights=w, n_vars=nv, method=method, comm=comm)
    return np.array(r), bool(np.array_equal(d, keep[0]) and np.array_equal(w, keep[1]))


def lay(a, order):
    """the same array in another memory layout"""
    if order == 'F':
        return np.asfortranarray(a)
    if order == 'strided':
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if order == 'reversed':
        return a[::-1].copy()[::-1]
    if order == 'readonly':
        a = a.copy()
        a.flags.writeable = False
        return a
    return np.ascontiguousarray(a)


def files(comm, path, full, cuts, axis, orders, axis2, counts):
    """save a distributed array, read it back; (local parts read, array unchanged)"""
    from pyspod.utils import parallel as p
    r = comm.rank
    a = lay(np.take(full, range(cuts[r], cuts[r + 1]), axis=axis), orders[r])
    keep = a.copy()
    p.npy_save(comm, path, a, axis=axis)
    same = bool(np.array_equal(a, keep, equal_nan=a.dtype.kind in 'fc'))
    b = p.npy_load(comm, path, axis=axis2) if counts is None else p.npy_load(comm, path, axis=axis2, count=counts[r])
    return np.array(b), same


def load(comm, path, axis, counts):
    from pyspod.utils import parallel as p
    b = p.npy_load(comm, path, axis=axis) if counts is None else p.npy_load(comm, path, axis=axis, count=counts[comm.rank])
    return np.array(b)


def split(comm, full, data, axis):
    """shares of an array: by its largest dimension, by that of its spatial part, by a given one"""
    from pyspod.utils import parallel as p
    a, ax, sh = p.distribute(full, comm)
    b, bx, bh = p.distribute_data(data, comm)
    c = p.distribute_dimension(full, axis, comm)
    return (np.array(a), int(ax), tuple(sh)), (np.array(b), int(bx), tuple(bh)), np.array(c)


def reduce(comm, parts, var):
    from pyspod.utils import parallel as p
    a = parts[comm.rank]
    keep = a.copy()
    s = p.allreduce(a, comm)
    v = p.pvar(var[comm.rank], comm)
    return np.array(s), tuple(v), bool(np.array_equal(a, keep))


def subcomm(comm, n):
    """n items spread over the groups; what a group sums up"""
    from pyspod.utils import parallel as p
    groups, mine, sub = p.create_subcomm(comm)
    out = dict(groups=int(groups), mine=int(mine), size=sub.size, rank=sub.rank, ranks=sub.allgather(comm.rank),
               sum=sub.allreduce(comm.rank))
    sub.Free()
    return out


def chain(comm, c, key, root):
    """bare chain of calls of C24 in this process"""
    from pbt.checks import c24
    return c24.chain(c, key, root)
