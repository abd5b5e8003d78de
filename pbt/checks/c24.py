"""C24: fits are deterministic and free of side effects on their inputs."""
import os, copy
import numpy as np
from hypothesis import strategies as st
from pbt import gen, drive, core
from pbt.core import Sub, close, require, equal

PROPERTY = 'C24'
RULE = ('random histories of constructions, fits (batch, streaming, POD; new models and models fitted before), coefficients, '
        'reconstructions, orthogonality checks and look-ups, over shared data, weights, parameter dictionaries and two shared '
        'directories; every result against that of the bare chain of calls it needs in a fresh directory of the same or of '
        'another process; non-trivial = two fits of different kind, configuration or data, and a result or another fit after them')
ASSUMPTIONS = ['a call on results that another fit has overwritten in the same folder is not judged',
               'results that differ in the last bits are compared up to the phase of the modes, well separated ones only']


# ------------------------------------------------------------------------------------------------ cases
@st.composite
def configs(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    c = dict(kind=kind, dt=draw(st.sampled_from([1.0, 0.25])), w=draw(st.sampled_from(['none', 'rand', 'pervar', 'flat'])),
             n_modes_save=draw(st.one_of(st.none(), st.integers(1, 6))), normalize_weights=draw(st.booleans()) and kind != 'stream')
    c['mean_type'] = draw(st.sampled_from(['longtime', 'zero'] + (['blockwise', 'blockwise'] if kind == 'standard' else [])))
    if kind != 'pod':
        c['n_dft'] = draw(st.integers(4, 9))
        c['overlap'] = draw(st.sampled_from([0, 0, 50, 30]))
        c['fullspectrum'] = draw(st.booleans())
        c['savefft'] = draw(st.booleans())
    if kind == 'standard':
        c['normalize_data'] = draw(st.integers(0, 2)) == 0
    return c


OPS = ['fit', 'fit', 'fit', 'refit', 'refit', 'build', 'again', 'look', 'coeffs', 'coeffs', 'conv', 'rec', 'rec', 'rec', 'orth', 'post']


@st.composite
def cases(draw):
    c = dict(seed=draw(st.integers(0, 2 ** 20)), nv=draw(st.sampled_from([1, 1, 2])), complex=draw(st.integers(0, 3)) == 0)
    c['xshape'] = draw(gen.xshapes(min_points=26 // c['nv'], max_points=30 // c['nv']))
    c['squeeze'] = draw(st.booleans()) if c['nv'] == 1 else False
    c['sets'] = [dict(nt=draw(st.integers(22, 44)), container=draw(st.sampled_from(['numpy', 'numpy', 'readonly', 'fortran', 'xarray', 'cut', 'f32'])),
                      form=draw(st.sampled_from(['noise', 'waves', 'trend']))) for _ in range(draw(st.integers(1, 3)))]
    kinds = draw(st.sampled_from([['standard'], ['standard', 'pod'], ['standard', 'stream', 'pod'], ['standard', 'stream'], ['pod']]))
    c['cfgs'] = [draw(configs(kinds)) for _ in range(draw(st.integers(1, 3)))]
    if draw(st.booleans()):
        # configurations that differ in all but the name of the folder
        c['cfgs'] = c['cfgs'][:1] + [dict(draw(configs(kinds))) for _ in range(draw(st.integers(1, 2)))]
        for cfg in c['cfgs'][1:]:
            if 'n_dft' in cfg and 'n_dft' in c['cfgs'][0]:
                cfg.update(n_dft=c['cfgs'][0]['n_dft'], overlap=c['cfgs'][0]['overlap'])
            if cfg['kind'] == 'pod':
                cfg['n_modes_save'] = c['cfgs'][0]['n_modes_save']
        for s in c['sets'][1:]:
            s['nt'] = c['sets'][0]['nt']
    c['where'] = draw(st.sampled_from(['here', 'here', 'here', 'other']))
    n = draw(st.integers(2, 14))
    i = st.integers(0, 11)
    c['ops'] = [['fit', draw(i), draw(i), draw(i)]] + [[draw(st.sampled_from(OPS)), draw(i), draw(i), draw(i)] for _ in range(n)]
    return c


@st.composite
def refits(draw):
    """one or two models fitted again and again, on data of different length, by any kind"""
    c = draw(cases())
    c['sets'] = [dict(s, nt=draw(st.integers(18, 90))) for s in c['sets']] + [dict(c['sets'][0], nt=draw(st.integers(18, 90)))]
    c['cfgs'] = c['cfgs'][:2]
    c['where'] = 'here'
    i = st.integers(0, 11)
    n = draw(st.integers(1, 5))
    c['ops'] = [['fit', draw(i), draw(i), draw(i)]] + [[draw(st.sampled_from(['refit', 'refit', 'refit', 'fit', 'rec', 'coeffs'])),
                                                         draw(i), draw(i), draw(i)] for _ in range(n)]
    if draw(st.booleans()):
        c['ops'][1][0] = 'refit'
    return c


def dataset(c, k):
    s = c['sets'][k]
    x = gen.make_data(dict(seed=c['seed'] + 17 * k, kind=s['form'], nt=s['nt'], xshape=c['xshape'], nv=c['nv'], squeeze=c['squeeze'],
                           complex=c['complex'], offset=0.5, f32=s['container'] == 'f32'))
    return x


def shared(c):
    """data lists, weights: the objects every call of a history gets"""
    lists = []
    for k, s in enumerate(c['sets']):
        x = dataset(c, k)
        if s['container'] == 'fortran':
            x = np.asfortranarray(x)
        elif s['container'] == 'readonly':
            x.flags.writeable = False
        elif s['container'] == 'xarray':
            import xarray as xr
            x = xr.DataArray(x)
        lists.append([x[:9], x[9:]] if s['container'] == 'cut' else [x])
    w = {}
    for n in ('rand', 'pervar', 'flat'):
        w[n] = gen.make_weights(dict(seed=c['seed'], xshape=c['xshape'], nv=c['nv'], w='rand' if n == 'flat' else n))
        if n == 'flat':
            w[n]['weights'] = w[n]['weights'].ravel()
    w['none'] = None
    return lists, w


def params(c, cfg, savedir):
    p = dict(time_step=cfg['dt'], n_space_dims=len(c['xshape']), n_variables=c['nv'], savedir=savedir, conf_level=0.9)
    for k in ('n_dft', 'overlap', 'mean_type', 'normalize_weights', 'normalize_data', 'fullspectrum', 'savefft', 'n_modes_save'):
        if cfg.get(k) is not None:
            p[k] = cfg[k]
    if cfg['kind'] == 'stream' and 'n_modes_save' not in p:
        p['n_modes_save'] = 3
    return p


def cls(kind):
    if kind == 'pod':
        from pyspod.pod.standard import Standard as K
    elif kind == 'stream':
        from pyspod.spod.streaming import Streaming as K
    else:
        from pyspod.spod.standard import Standard as K
    return K


def usable(c, cfg, k):
    """a fit of that set is possible"""
    if cfg['kind'] == 'pod':
        return True
    no = int(np.ceil(cfg['n_dft'] * cfg['overlap'] / 100))
    return (c['sets'][k]['nt'] - no) // (cfg['n_dft'] - no) >= 2


# ------------------------------------------------------------------------------------------------ calls and their results
def fit_result(cfg, s):
    out = dict(eigs=np.array(s.eigs), nt=int(s.nt), nx=int(s.nx), xshape=tuple(s.xshape), n_modes_save=int(s.n_modes_save))
    if cfg['kind'] == 'pod':
        out['folder'] = drive.pod_results(s)
    else:
        out['folder'] = str(s.savedir_sim)
        out['freq'] = np.array(s.freq)
        out['n_blocks'] = int(s.n_blocks)
    out['files'] = tree(out['folder'])
    return out


def tree(folder, sub=('modes', 'blocks')):
    """content of the files of a fit (not of what was computed from it)"""
    import yaml
    out = {}
    for r, ds, fs in os.walk(folder):
        ds[:] = [d for d in ds if not d.startswith('coeffs')]
        for f in fs:
            p, rel = os.path.join(r, f), os.path.relpath(os.path.join(r, f), folder)
            if f.endswith('.npy'):
                out[rel] = np.load(p)
            elif f.endswith('.npz'):
                with np.load(p) as z:
                    for k in z.files:
                        out[rel + ':' + k] = z[k]
            elif f.endswith('.yaml'):
                with open(p) as h:
                    y = yaml.safe_load(h)
                out[rel] = {k: v for k, v in y.items() if k not in ('savedir', 'results_folder')}
    return out


def look_result(cfg, s, folder):
    import pyspod.utils.postproc as post
    if cfg['kind'] == 'pod':
        return dict(modes=np.load(os.path.join(folder, 'modes.npy')), eigs=np.array(s.eigs))
    nf = len(s.freq)
    out = {f'm{f}': np.array(s.get_modes_at_freq(freq_idx=f)) for f in (0, nf // 2, nf - 1)}
    out['all'] = np.array(post.get_all_modes(folder))
    out['eigs'] = np.array(s.eigs)
    return out


def coeffs_result(cfg, s, folder, raw, i, conv, method):
    import pyspod.spod.utils as us
    import pyspod.pod.utils as up
    if cfg['kind'] == 'pod':
        sel = dict(modes_idx=None if i % 2 == 0 else [0])
        f = s.compute_coeffs_op if method else up.compute_coeffs_op
        file, cdir = f(raw, results_dir=folder, **sel)
        return dict(file=np.load(file)), file, cdir
    nf = len(s.freq)
    sel = [{}, dict(freq_idx=[nf - 1]), dict(freq_idx=[1, 0]), dict(T_lb=2.1 * cfg['dt'], T_ub=cfg['n_dft'] * cfg['dt'])][i % 4]
    if method and not conv and 'freq_idx' not in sel:
        file, cdir = s.compute_coeffs_op(raw, results_dir=folder, **sel)
    else:
        file, cdir = (us.compute_coeffs_conv if conv else us.compute_coeffs_op)(raw, results_dir=folder, **sel)
    return dict(file=np.load(file), mean=np.load(os.path.join(cdir, 'ltm.npy'))), file, cdir


def rec_result(cfg, s, cdir, i, method):
    import pyspod.spod.utils as us
    import pyspod.pod.utils as up
    t = ['all', 'half', [0, 3, 1], 'quarter'][i % 4]
    if method:
        rf, _ = s.compute_reconstruction(coeffs_dir=cdir, time_idx=t)
    else:
        rf, _ = (up if cfg['kind'] == 'pod' else us).compute_reconstruction(coeffs_dir=cdir, time_idx=t)
    return dict(rec=np.load(rf))


def orth_result(folder, i, j, f):
    import pyspod.spod.utils as us
    ok, o = us.check_orthogonality(folder, [i], [j], [f])
    return dict(ok=np.array([bool(np.all(ok))]), o=np.abs(np.ravel(o)))


def post_result(cfg, s, folder, raw, i):
    """look-ups that take data"""
    x = np.asarray(raw)
    t0, t1 = sorted((i % len(x), (3 * i + 5) % len(x)))
    out = dict(data=np.array(s.get_data(raw, t_0=t0, t_end=t1)), whole=np.array(s.get_data(raw)))
    if cfg['kind'] != 'pod':
        f, k = s.find_nearest_freq(freq_req=0.3 / cfg['dt'], freq=s.freq)
        out['near'] = np.array([f, k])
    return out


# ------------------------------------------------------------------------------------------------ reference: bare chains
def whole(lists, k):
    l = lists[k]
    return l[0] if len(l) == 1 else np.concatenate([np.asarray(v) for v in l])


def chain(c, key, root):
    """Result of the bare chain of calls, in a directory of its own."""
    lists, w = shared(c)
    lists = [[np.array(v) if not hasattr(v, 'dims') else v.copy(deep=True) for v in l] for l in lists]
    cfg = c['cfgs'][key['cfg']]
    s = cls(cfg['kind'])(params=params(c, cfg, root), weights=copy.deepcopy(w[cfg['w']])).fit(data_list=lists[key['set']])
    first = fit_result(cfg, s)
    folder = first.pop('folder')
    op = key['op']
    if op == 'fit':
        return first
    if op == 'look':
        return look_result(cfg, s, folder)
    if op == 'orth':
        return orth_result(folder, key['i'], key['j'], key['f'])
    if op == 'post':
        return post_result(cfg, s, folder, whole(lists, key['data']), key['i'])
    r, file, cdir = coeffs_result(cfg, s, folder, whole(lists, key['data']), key['sel'], key['conv'], key['method'])
    if op == 'coeffs':
        return r
    return rec_result(cfg, s, cdir, key['i'], key['rmethod'])


# ------------------------------------------------------------------------------------------------ comparison
def differ(got, want, what, first):
    """first: result of the fit, for the separation of the eigenvalues"""
    if isinstance(want, dict):
        missing = set(want) - set(got)
        require(not missing, lambda: f'{what}: {sorted(missing)} missing')
        for k in want:
            differ(got[k], want[k], f'{what}, {k}', first)
        return
    if not isinstance(want, np.ndarray):
        require(got == want, lambda: f'{what}: {got!r}, alone {want!r}')
        return
    core.same_shape(got, want, what)
    if np.array_equal(got, want, equal_nan=True):
        return
    require(not np.issubdtype(want.dtype, np.integer) and not want.dtype == bool, lambda: f'{what}: {got!r:.200}, alone {want!r:.200}')
    sc = np.nanmax(np.abs(want)) if want.size else 0
    d = np.abs(np.where(np.isnan(want), 0, got - want))
    require(np.array_equal(np.isnan(got), np.isnan(want)), lambda: f'{what}: NaN')
    if np.all(d <= 1e-7 * sc):
        return
    name = what.rsplit(', ', 1)[-1]
    if name.startswith(('m', 'all', 'modes', 'file', 'blocks')) and not name.startswith('mean'):
        raise core.Skip('round-off')
    close(got, want, what, rtol=1e-7, scale=sc)


def bytes_of(v):
    if hasattr(v, 'dims'):
        return (v.dims, v.values.tobytes(), str(v.dtype), v.shape)
    if isinstance(v, np.ndarray):
        return (v.tobytes(), str(v.dtype), v.shape, v.strides, v.flags.writeable)
    if isinstance(v, dict):
        return {k: bytes_of(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [bytes_of(x) for x in v]
    return (type(v), v)


def history(c, ctx):
    dirs = [ctx.dir('s'), ctx.dir('s')]
    here = os.getcwd()
    desk = ctx.dir('desk')
    lists, w = shared(c)
    plist = {}
    for i, cfg in enumerate(c['cfgs']):
        for j, d in enumerate(dirs):
            plist[i, j] = params(c, cfg, d)
    inputs = dict(data=lists, weights=w, params=plist)
    before = bytes_of(inputs)
    models, owner, coeffs, cowner = [], {}, [], {}
    cache = {}
    njudged, kinds, judged_after = 0, set(), 0

    def alone(key):
        k = repr(sorted(key.items()))
        if k not in cache:
            root = ctx.dir('r')
            if c['where'] == 'other':
                cache[k] = ctx.mpi(1).run('chain', dict(c=c, key=key, root=root))[0]
            else:
                cache[k] = chain(c, key, root)
        return cache[k]
    os.chdir(desk)
    try:
        for n, (op, i, j, k) in enumerate(c['ops']):
            ci, di, si = i % len(c['cfgs']), j % 2, k % len(c['sets'])
            cfg = c['cfgs'][ci]
            what = f'step {n} ({op})'
            if op == 'build':
                # constructing alone changes nothing either, with a relative folder or none
                p = dict(plist[ci, di])
                if k % 2:
                    p['savedir'] = 'results_of_mine'
                else:
                    del p['savedir']
                p0 = dict(p)
                cls(cfg['kind'])(params=p, weights=w[cfg['w']])
                require(p == p0, lambda: f'{what}: parameters {p} were {p0}')
            elif op in ('fit', 'refit'):
                m = None
                if op == 'refit':
                    if not models:
                        continue
                    m = models[i % len(models)]
                    ci, di, cfg = m['cfg'], m['dir'], c['cfgs'][m['cfg']]
                if not usable(c, cfg, si):
                    continue
                s = m['s'] if m else cls(cfg['kind'])(params=plist[ci, di], weights=w[cfg['w']])
                r = s.fit(data_list=lists[si])
                require(r is s, f'{what}: fit returned another object')
                got = fit_result(cfg, s)
                folder = got.pop('folder')
                want = alone(dict(op='fit', cfg=ci, set=si))
                differ(got, want, what, want)
                # modes a fit before left in the same folder are not this one's
                left = {f for f in got['files'] if 'modes' in f.split(os.sep)[0]} - set(want['files'])
                require(not left, lambda: f'{what}: modes of a fit before are left in the folder: {sorted(left)[:4]}')
                new = dict(s=s, cfg=ci, dir=di, set=si, folder=folder, n=n)
                if m:
                    for x in models:
                        if x['s'] is s:
                            x['dead'] = True
                models.append(new)
                owner[folder] = new
                kinds.add((cfg['kind'], ci, si))
            else:
                alive = [m for m in models if not m.get('dead') and owner[m['folder']] is m]
                if not alive:
                    continue
                m = alive[i % len(alive)]
                cfg, s = c['cfgs'][m['cfg']], m['s']
                base = dict(cfg=m['cfg'], set=m['set'])
                judged_after += len(kinds) > 1
                if op == 'again':
                    got = fit_result(cfg, s)
                    got.pop('folder')
                    differ(got, alone(dict(base, op='fit')), what, None)
                elif op == 'look':
                    got = look_result(cfg, s, m['folder'])
                    want = alone(dict(base, op='look'))
                    differ(got, want, what, None)
                elif op == 'orth' and cfg['kind'] != 'pod':
                    nm = min(int(s.n_modes_save), 3)
                    a = dict(i=j % nm, j=k % nm, f=(j + k) % len(s.freq))
                    differ(orth_result(m['folder'], a['i'], a['j'], a['f']), alone(dict(base, op='orth', **a)), what, None)
                elif op == 'post':
                    raw = whole(lists, si)
                    differ(post_result(cfg, s, m['folder'], raw, j), alone(dict(base, op='post', data=si, i=j)), what, None)
                elif op in ('coeffs', 'conv'):
                    conv = op == 'conv'
                    if conv and cfg['kind'] == 'pod':
                        continue
                    key = dict(base, data=si, sel=j % 4, conv=conv, method=k % 2 == 0)
                    got, file, cdir = coeffs_result(cfg, s, m['folder'], whole(lists, si), j, conv, k % 2 == 0)
                    differ(got, alone(dict(key, op='coeffs')), what, None)
                    x = dict(m=m, cdir=cdir, key=key)
                    coeffs.append(x)
                    cowner[cdir] = x
                elif op == 'rec':
                    good = [x for x in coeffs if cowner[x['cdir']] is x and not x['m'].get('dead') and owner[x['m']['folder']] is x['m']]
                    if not good:
                        continue
                    x = good[i % len(good)]
                    # (the method of a model asks for coefficients computed by a model before)
                    meth = k % 2 == 0 and x['key']['method'] and not x['key']['conv'] and hasattr(x['m']['s'], 'file_coeffs') \
                        if c['cfgs'][x['m']['cfg']]['kind'] != 'pod' else k % 2 == 0 and x['key']['method']
                    if meth and c['cfgs'][x['m']['cfg']]['kind'] != 'pod' and x['key']['sel'] in (1, 2):
                        meth = False
                    got = rec_result(c['cfgs'][x['m']['cfg']], x['m']['s'], x['cdir'], j, meth)
                    differ(got, alone(dict(x['key'], op='rec', i=j % 4, rmethod=bool(meth))), what, None)
            njudged += 1
            ctx.label(op, cfg['kind'])
            require(os.path.realpath(os.getcwd()) == os.path.realpath(desk), lambda: f'{what} changed the working directory to {os.getcwd()}')
            after = bytes_of(inputs)
            for part in before:
                require(after[part] == before[part], lambda: f'{what} changed the {part} of the caller')
        require(not os.listdir(desk), lambda: f'left in the working directory: {os.listdir(desk)}')
    finally:
        os.chdir(here)
    ctx.label(f'fits={min(len(models), 4)}', 'ref ' + c['where'])
    ctx.nontrivial(len(kinds) > 1 and (judged_after > 0 or len(models) > 2))


@st.composite
def rooms(draw):
    """fits and what follows them in several working directories, everything given relative to the one at the time"""
    c = draw(cases())
    c['where'] = 'here'
    i = st.integers(0, 11)
    c['name'] = draw(st.sampled_from(['res', 'out/res', './res', '../shared', None]))
    c['ops'] = [['fit', draw(i), 0, draw(i)], ['fit', draw(i), draw(st.sampled_from([0, 1, 1])), draw(i)]] + \
        [[draw(st.sampled_from(['fit', 'coeffs', 'coeffs', 'rec', 'rec', 'conv', 'orth', 'look', 'plot'])), draw(i), draw(i), draw(i)]
         for _ in range(draw(st.integers(1, 8)))]
    return c


def moving(c, ctx):
    """a relative path is relative to the working directory of the time"""
    top = ctx.dir('t')
    desks = [os.path.join(top, 'a'), os.path.join(top, 'b')]
    for d in desks:
        os.mkdir(d)
    lists, w = shared(c)
    here = os.getcwd()
    last, coeffs, cache, seen = {}, {}, {}, set()

    def alone(key):
        k = repr(sorted(key.items()))
        if k not in cache:
            cache[k] = chain(c, key, ctx.dir('r'))
        return cache[k]

    def files():
        return {os.path.join(r, f) for r, _, fs in os.walk(top) for f in fs}
    try:
        for n, (op, i, j, k) in enumerate(c['ops']):
            desk = desks[j % 2]
            os.chdir(desk)
            what = f'step {n} ({op} in {os.path.basename(desk)})'
            si = k % len(c['sets'])
            if op == 'fit':
                ci = i % len(c['cfgs'])
                cfg = c['cfgs'][ci]
                if not usable(c, cfg, si):
                    continue
                p = params(c, cfg, c['name'])
                if c['name'] is None:
                    del p['savedir']
                name = c['name'] or ('pod_results' if cfg['kind'] == 'pod' else 'spod_results')
                s = cls(cfg['kind'])(params=p, weights=w[cfg['w']])
                k % 3 or os.chdir(here)                 # (the directory is that of the time the model is made)
                s.fit(data_list=lists[si])
                os.chdir(desk)
                got = fit_result(cfg, s)
                folder = os.path.realpath(got.pop('folder'))
                root = os.path.realpath(os.path.join(desk, name))
                require(folder.startswith(root + os.sep), lambda: f'{what}: results in {folder}, not in {root}')
                require(os.path.isdir(folder), lambda: f'{what}: no results in {folder}')
                differ(got, alone(dict(op='fit', cfg=ci, set=si)), what, None)
                for q in [q for q in last if last[q]['folder'] == folder]:
                    del last[q]
                last[n] = dict(s=s, cfg=ci, set=si, folder=folder)
                coeffs = {q: x for q, x in coeffs.items() if x['folder'] != folder}
                seen.add((desk, folder))
                continue
            if op == 'rec':
                if not coeffs:
                    continue
                x = list(coeffs.values())[i % len(coeffs)]
                got = rec_result(c['cfgs'][x['key']['cfg']], None, os.path.relpath(x['cdir']), j, False)
                differ(got, alone(dict(x['key'], op='rec', i=j % 4, rmethod=False)), what, None)
                seen.add((desk, x['folder']))
                continue
            if op == 'plot':
                import matplotlib
                matplotlib.use('Agg')
                import pyspod.utils.postproc as post
                post.plot_eigs(np.linspace(1, 2, 3), filename='e.png')
                require(os.path.exists(os.path.join(desk, 'e.png')), lambda: f'{what}: e.png is not there')
                os.remove(os.path.join(desk, 'e.png'))
                seen.add((desk, 'plot'))
                continue
            if not last:
                continue
            m = list(last.values())[i % len(last)]
            cfg = c['cfgs'][m['cfg']]
            base = dict(cfg=m['cfg'], set=m['set'])
            folder = os.path.relpath(m['folder'])
            if op == 'orth' and cfg['kind'] != 'pod':
                a = dict(i=0, j=0, f=k % len(m['s'].freq))
                differ(orth_result(folder, a['i'], a['j'], a['f']), alone(dict(base, op='orth', **a)), what, None)
            elif op == 'look' and cfg['kind'] != 'pod':
                differ(look_result(cfg, m['s'], folder), alone(dict(base, op='look')), what, None)
            elif op in ('coeffs', 'conv') and not (op == 'conv' and cfg['kind'] == 'pod'):
                conv = op == 'conv'
                key = dict(base, data=si, sel=j % 4, conv=conv, method=False)
                before = files()
                got, file, cdir = coeffs_result(cfg, m['s'], folder, whole(lists, si), j, conv, False)
                file, cdir = os.path.realpath(file), os.path.realpath(cdir)
                differ(got, alone(dict(key, op='coeffs')), what, None)
                new = {os.path.realpath(f) for f in files() - before}
                require(all(f.startswith(m['folder'] + os.sep) for f in new),
                        lambda: f'{what}: written outside the results directory: {sorted(new)}')
                coeffs[cdir] = dict(key=key, cdir=cdir, folder=m['folder'])
                seen.add((desk, m['folder']))
    finally:
        os.chdir(here)
    ctx.label(f"name={c['name']}", f'rooms={len({d for d, _ in seen})}', f'folders={len({f for _, f in seen})}')
    ctx.nontrivial(len(seen) > 1)


SUBS = [
    Sub('history', cases, history, quick=260, thorough=5000, slots=2),
    Sub('moving', rooms, moving, quick=120, thorough=3000),
    Sub('refits', refits, history, quick=300, thorough=5000),
]
