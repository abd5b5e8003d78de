"""C23: configuration and data files are read as written."""
import os, sys, pathlib
import numpy as np
from hypothesis import strategies as st
from pbt import core, gen, drive
from pbt.core import Sub, close, require, equal, raises

PROPERTY = 'C23'
RULE = ('random parameter dictionaries (numbers of every size, flags, strings, lists, None) written in several YAML layouts; fits '
        'by file and in memory; random arrays (types, shapes, orders) in npy, netCDF (two writers) and MATLAB v7.3 files under '
        'random names and requested formats; non-trivial = optional parameters, or an array of more than one axis')
ASSUMPTIONS = ['numbers are written with a decimal point or as integers (a bare 1e-3 is a string in YAML 1.1)',
               'netCDF variables hold plain numbers, without scaling or time units']

WORDS = ['results', 'blockwise', 'double', 'a b', 'x#y', 'yes', '1.5', 'null', 'ü', "it's", 'a: b', '', '- 1', '~', '10', 'a\\b', '"q"']


def values():
    num = st.one_of(st.integers(-10 ** 9, 10 ** 9), st.integers(0, 3), st.floats(-1e6, 1e6, allow_nan=False),
                    st.sampled_from([0.95, 1e-3, 1e-12, 3.6e6, 1e22, 0.1 + 0.2, -0.0]))
    leaf = st.one_of(num, st.booleans(), st.none(), st.sampled_from(WORDS))
    return st.one_of(leaf, leaf, leaf, st.lists(leaf, max_size=4))


KEYS = ['overlap', 'mean_type', 'normalize_weights', 'normalize_data', 'n_modes_save', 'conf_level', 'reuse_blocks', 'savefft', 'dtype',
        'savedir', 'fullspectrum', 'savefreq_disk', 'my_key', 'KEY', 'k2', 'key with space']


@st.composite
def configs(draw):
    req = [['time_step', draw(st.one_of(st.integers(1, 100), st.floats(1e-6, 1e6)))], ['n_space_dims', draw(st.integers(1, 3))],
           ['n_variables', draw(st.integers(1, 9))], ['n_dft', draw(st.integers(2, 2000))]]
    req += [[k, draw(values())] for k in draw(st.lists(st.sampled_from(['more', 'extra_1', 'z']), unique=True, max_size=2))]
    req = draw(st.permutations(req))
    keys = draw(st.lists(st.sampled_from(KEYS), unique=True, max_size=len(KEYS)))
    opt = [[k, draw(values())] for k in keys] if draw(st.integers(0, 5)) else None
    return dict(req=[list(v) for v in req], opt=opt, layout=draw(st.sampled_from(['hand', 'hand', 'block', 'flow', 'grouped'])),
                first=draw(st.booleans()), how=draw(st.sampled_from(['path', 'path', 'object', 'line', 'line=', 'dash'])), seed=draw(st.integers(0, 99)),
                group=draw(st.integers(2, 5)), name=draw(st.sampled_from(['c.yaml', 'c.yml', 'my conf.txt', 'noext', 'ü.yaml'])))


def token(v):
    import yaml
    return yaml.safe_dump(v, default_flow_style=True, allow_unicode=True, width=10 ** 6).strip().removesuffix('...').strip()


def write(c, path):
    import yaml
    sections = [('required', c['req'])] + ([('optional', c['opt'])] if c['opt'] is not None else [])
    if not c['first']:
        sections.reverse()
    if c['layout'] == 'hand':
        out = []
        for k, items in sections:
            if k == 'optional' and not items and c['seed'] % 2:
                out += ['optional: []', '']
                continue
            out.append(f'{k}:  # section' if c['seed'] % 3 == 0 else f'{k}:')
            for n, v in items:
                out.append(f'  - {n}{" " * (c["seed"] % 7)}: {token(v)}' + ('   # comment' if len(n) % 2 else ''))
            out.append('')
        text = '\n'.join(out)
    else:
        items = lambda l: [dict([v]) for v in l]
        if c['layout'] == 'grouped':
            g = c['group']
            items = lambda l: [dict(l[i:i + g]) for i in range(0, len(l), g)]
        text = yaml.safe_dump({k: items(v) for k, v in sections}, default_flow_style=c['layout'] == 'flow', sort_keys=False,
                              allow_unicode=True)
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text)
    return text


def read(path, how):
    from pyspod.utils.io import read_config
    if how in ('line', 'line='):
        argv = sys.argv
        sys.argv = ['prog', '--config_file', path] if how == 'line' else ['prog', f'--config_file={path}']
        try:
            return read_config()
        finally:
            sys.argv = argv
    return read_config(pathlib.Path(path) if how == 'object' else path)


def same(a, b):
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and a == b


def config(c, ctx):
    d = ctx.dir()
    cwd = os.getcwd()
    if c['how'] == 'dash':
        os.chdir(d)
        path = '-' + c['name']
    else:
        path = os.path.join(d, c['name'])
    try:
        text = write(c, path)
        got = read(path, c['how'])
        want = dict(tuple(v) for v in c['req'] + (c['opt'] or []))
        require(isinstance(got, dict) and set(got) == set(want), lambda: f'keys {sorted(got)}, written {sorted(want)}:\n{text}')
        for k, v in want.items():
            require(same(got[k], v), lambda: f'{k} = {got[k]!r}, written {v!r}:\n{text}')
        with open(path, encoding='utf-8') as f:
            require(f.read() == text, 'the file was changed')
        again = read(path, c['how'])
        require(set(again) == set(want) and all(same(again[k], v) for k, v in want.items()), lambda: f'second reading: {again}')
    finally:
        os.chdir(cwd)
    ctx.label(c['layout'], c['how'], f'optional={None if c["opt"] is None else min(len(c["opt"]), 3)}')
    ctx.nontrivial(bool(c['opt']))


def fit(c, ctx):
    import yaml
    d = ctx.dir()
    a, b = os.path.join(d, 'a'), os.path.join(d, 'b')
    from pyspod.spod.standard import Standard
    from pyspod.utils.io import read_config
    pa, pb = gen.params_of(c, a), gen.params_of(dict(c, ptypes=None), b)
    req = ['time_step', 'n_space_dims', 'n_variables', 'n_dft']
    cfg = dict(req=[[k, pb[k]] for k in req], opt=[[k, v] for k, v in pb.items() if k not in req], layout='hand', first=True, seed=c['seed'])
    write(cfg, os.path.join(d, 'c.yaml'))
    data, w = gen.make_data(c), gen.make_weights(c)
    ra = Standard(params=pa, weights=w).fit(data_list=[data])
    rb = Standard(params=read_config(os.path.join(d, 'c.yaml')), weights=w).fit(data_list=[data])
    ta = {k: v for k, v in drive.snapshot_tree(a).items()}
    tb = {k: v for k, v in drive.snapshot_tree(b).items()}
    require(set(ta) == set(tb), lambda: f'files {sorted(ta)} / {sorted(tb)}')
    for k in ta:
        if k.endswith('.npy'):
            equal(core.load_npy(os.path.join(b, k)), core.load_npy(os.path.join(a, k)), k)
        elif k.endswith('.yaml'):
            ya, yb = yaml.safe_load(ta[k]), yaml.safe_load(tb[k])
            for y in (ya, yb):
                for n in [n for n in y if n in ('savedir', 'results_folder')]:
                    y.pop(n)
            require(ya == yb, lambda: f'{k}: {ya} / {yb}')
    equal(rb.eigs, ra.eigs, 'eigenvalues')
    equal(rb.freq, ra.freq, 'frequencies')
    ctx.label(f'dtype={c["dtype"]}')
    ctx.nontrivial()


# ------------------------------------------------------------------------------------------------ data files
TYPES = ['f8', 'f4', 'i4', 'i8', 'u1', 'i2', '>f8', '>f4']


@st.composite
def files(draw):
    kind = draw(st.sampled_from(['npy', 'nc', 'mat']))
    n = 1 if kind == 'npy' else draw(st.integers(1, 3))
    return dict(kind=kind, shapes=[draw(st.lists(st.integers(1, 5), min_size=0 if kind == 'npy' else 1, max_size=4)) for _ in range(n)],
                types=[draw(st.sampled_from(TYPES + (['c16', 'c8', '?'] if kind != 'nc' else []))) for _ in range(n)],
                order=draw(st.sampled_from(['C', 'F'])), seed=draw(st.integers(0, 9999)), empty=draw(st.integers(0, 9)) == 0,
                ext=draw(st.sampled_from(['lower', 'lower', 'upper', 'mixed', 'none', 'other', 'wrong'])), dot=draw(st.booleans()),
                stem=draw(st.sampled_from(['a', 'my data', 'v1.2', 'x.nc.old', 'ü', 'a.npy.b'])), comm=draw(st.booleans()),
                writer=draw(st.sampled_from(['NETCDF4', 'NETCDF3_64BIT', 'scipy'])), gz=draw(st.booleans()))


def arrays(c):
    rng = np.random.RandomState(c['seed'])
    out = []
    for s, t in zip(c['shapes'], c['types']):
        s = tuple(s)
        if c['empty'] and s and c['kind'] != 'nc':
            s = (0,) + s[1:]
        v = rng.standard_normal(s) * 100
        if 'c' in t:
            v = v + 1j * rng.standard_normal(s)
        if t == '?':
            v = v > 0
        if 'u' in t:
            v = np.abs(v)
        out.append(np.asarray(v, order=c['order']).astype(t, order='K'))
    return out


def case_of(word, how):
    return dict(upper=word.upper(), mixed=word[:-1].lower() + word[-1].upper()).get(how, word)


def readback(c, ctx):
    from pyspod.utils.io import read_data
    a = arrays(c)
    word = c['kind']
    ext = '.' + case_of(word, c['ext'])
    if c['ext'] == 'none':
        ext = ''
    elif c['ext'] == 'other':
        ext = '.dat'
    elif c['ext'] == 'wrong':
        ext = dict(npy='.mat', nc='.npy', mat='.nc')[word]
    path = os.path.join(ctx.dir(), c['stem'] + ext)
    names = ['u', 'pressure', 'T_2m'][:len(a)]
    if word == 'npy':
        with open(path, 'wb') as f:
            np.save(f, a[0])
    elif word == 'mat':
        import h5py
        with h5py.File(path, 'w') as f:
            for n, v in zip(names, a):
                f.create_dataset(n, data=v, **(dict(compression='gzip') if c['gz'] and v.ndim and v.size else {}))
    else:
        import netCDF4
        from scipy.io import netcdf_file
        f = netcdf_file(path, 'w', mmap=False) if c['writer'] == 'scipy' else netCDF4.Dataset(path, 'w', format=c['writer'])
        small = c['writer'] != 'NETCDF4'
        for i, v in enumerate(a):
            if small and v.dtype.kind in 'iu' and v.dtype.itemsize in (1, 8):
                v = a[i] = v.astype('i4')
            dims = []
            for j, s in enumerate(v.shape):
                dims.append(f'd{i}_{j}')
                f.createDimension(dims[-1], s)
            if c['writer'] == 'scipy':
                x = f.createVariable(names[i], v.dtype.newbyteorder('='), tuple(dims))
            else:
                x = f.createVariable(names[i], v.dtype.newbyteorder('='), tuple(dims), fill_value=False)
            x[...] = v
        f.close()
    with open(path, 'rb') as f:
        raw = f.read()
    by_name = c['ext'] in ('lower', 'upper', 'mixed')
    args = {}
    if not by_name or c['seed'] % 4 == 0:
        args['format'] = ('.' if c['dot'] else '') + case_of(word, ['lower', 'upper', 'mixed'][c['seed'] % 3])
    if c['comm']:
        from mpi4py import MPI
        args['comm'] = MPI.COMM_SELF
    got = read_data(path, **args)
    if word == 'npy':
        equal(got, a[0], 'array')
        require(got.dtype == a[0].dtype, lambda: f'type {got.dtype}, stored {a[0].dtype}')
    elif word == 'mat':
        require(set(got) == set(names), lambda: f'arrays {sorted(got)}, stored {names}')
        for n, v in zip(names, a):
            equal(got[n], v, n)
            require(got[n].dtype == v.dtype, lambda: f'{n}: type {got[n].dtype}, stored {v.dtype}')
    else:
        require(set(got.data_vars) == set(names), lambda: f'arrays {sorted(got.data_vars)}, stored {names}')
        for n, v in zip(names, a):
            equal(np.asarray(got[n].values), v, n)
            require(got[n].dtype.newbyteorder('=') == v.dtype.newbyteorder('='), lambda: f'{n}: type {got[n].dtype}, stored {v.dtype}')
        got.close()
    with open(path, 'rb') as f:
        require(f.read() == raw, 'the file was changed')
    ctx.label(word, 'ext=' + c['ext'], *('type ' + t for t in c['types']))
    ctx.nontrivial(any(v.ndim > 1 and v.size > 1 for v in a))


def unknown(c, ctx):
    from pyspod.utils.io import read_data
    path = os.path.join(ctx.dir(), 'a' + c['ext'])
    with open(path, 'wb') as f:
        np.save(f, np.arange(3.))
    if c['format'] is None:
        raises(ValueError, lambda: read_data(path), f'file name {os.path.basename(path)}')
    else:
        raises(ValueError, lambda: read_data(path, format=c['format']), f'format {c["format"]!r}')
    ctx.label(str(c['format']), c['ext'])
    ctx.nontrivial()


def unknowns():
    bad = st.sampled_from(['.csv', '.np', '.mat5', '.npz', '.n', '.txt', '.hdf5', '.npyx', '.ncdf'])
    return st.one_of(st.builds(lambda e: dict(ext=e, format=None), st.one_of(bad, st.just(''))),
                     st.builds(lambda e, f, d: dict(ext=e, format=f if d else f[1:]), st.sampled_from(['.npy', '.mat', '.nc']), bad, st.booleans()))


SUBS = [Sub('config', configs, config, quick=1200, thorough=15000),
        Sub('fit', lambda: gen.spod_cases(max_nt=60, n_dft_max=10, max_points=20), fit, quick=60, thorough=600),
        Sub('readback', files, readback, quick=600, thorough=8000),
        Sub('unknown', unknowns, unknown, quick=80, thorough=400, min_nontrivial=0)]
