"""C22: emulation sequences and predictions are placed at the right times."""
import os, warnings, contextlib, io
import numpy as np
from hypothesis import strategies as st
from pbt import core, gen
from pbt.core import Sub, close, require, equal

PROPERTY = 'C22'
RULE = ('random real, complex and integer series; every input and output length, horizon, number of features; network replaced '
        'by a known function of the window, recording which weights are loaded (and real LSTM networks for a few cases); '
        'non-trivial = output of more than one snapshot or more than one feature')
ASSUMPTIONS = ['`sequences` leaves out the last window: a choice of training set, not judged (at most one window may be missing)']


def nets(params):
    os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
    from pyspod.emulation.neural_nets import Neural_Nets
    return Neural_Nets(params)


class Fake:
    """Known function of the window standing for the network."""
    def __init__(self, n_in, n_out, nf, seed):
        rng = np.random.RandomState(seed)
        self.shape = (n_in, n_out, nf)
        self.w = {k: rng.standard_normal((n_in * nf, n_out * nf)) / (n_in * nf) for k in ('real', 'imag')}
        self.b = {k: rng.standard_normal(n_out * nf) for k in ('real', 'imag')}
        self.loaded, self.part, self.fits, self.windows = [], None, [], []

    def load_weights(self, path, *a, **k):
        self.loaded.append(str(path))
        name = os.path.basename(str(path))
        self.part = name[:4]

    def apply(self, part, x):
        return np.tanh(np.asarray(x).reshape(-1) @ self.w[part]) + self.b[part]

    def predict(self, x, *a, **k):
        x = np.asarray(x)
        n_in, n_out, nf = self.shape
        require(x.ndim == 3 and x.shape[1:] == (n_in, nf), lambda: f'input of the network has shape {x.shape} for {n_in}, {nf}')
        require(not np.iscomplexobj(x), 'complex input of the network')
        require(self.part in self.w, f'prediction with weights {self.loaded}')
        return np.array([self.apply(self.part, v) for v in x])

    def predict_on_batch(self, x, *a, **k):
        return self.predict(x)

    __call__ = predict_on_batch

    def fit(self, x=None, y=None, validation_data=None, callbacks=(), **k):
        files = [str(c.filepath) for c in callbacks if hasattr(c, 'filepath')]
        self.fits.append((np.array(x), np.array(y), tuple(np.array(v) for v in validation_data), files))


@st.composite
def cases(draw):
    n_in, n_out = draw(gen.tail(1, 6, 40)), draw(gen.tail(1, 6, 40))
    fh = draw(st.sampled_from([1, 1, 2, 3, 5]))
    return dict(n_in=n_in, n_out=n_out, fh=fh, nf=draw(gen.tail(1, 5, 30)), extra=draw(gen.tail(0, 14, 150)),
                seed=draw(st.integers(0, 2 ** 20)), kind=draw(st.sampled_from(['real', 'complex', 'complex', 'real-valued', 'int', 'float32'])),
                idx=draw(st.sampled_from([0, 0, 1, 7, 12])), order=draw(st.sampled_from(['C', 'F', 'T', 'strided'])))


def series(c, nt, seed=0):
    rng = np.random.RandomState(c['seed'] + seed)
    a = rng.standard_normal((c['nf'], nt))
    if c['kind'] == 'complex':
        a = a + 1j * rng.standard_normal(a.shape)
        if c['seed'] % 5 == 0 and nt > c['n_in']:          # imaginary part at a single place
            z = np.zeros(a.shape)
            z[-1, c['seed'] % nt] = 1.5
            a = a.real + 1j * z
    elif c['kind'] == 'real-valued':
        a = a + 0j
    elif c['kind'] == 'int':
        a = np.round(a * 50).astype(int)
    elif c['kind'] == 'float32':
        a = a.astype(np.float32)
    if c['order'] == 'F':
        a = np.asfortranarray(a)
    elif c['order'] == 'T':
        a = np.ascontiguousarray(a.T).T
    elif c['order'] == 'strided':
        b = np.zeros((c['nf'], 2 * nt), dtype=a.dtype)
        b[:, ::2] = a
        a = b[:, ::2]
    return a


def folder(ctx):
    """Folder of the weights of the case."""
    if not getattr(ctx, 'weights_folder', None):
        ctx.weights_folder = ctx.dir()
    return ctx.weights_folder


def model(c, ctx, network='cnn', **kw):
    """(the network built for the case is replaced right after; `cnn` is built at no cost.)"""
    p = dict(data_type='real' if c['kind'] in ('real', 'int', 'float32') else 'complex', network=network, n_seq_in=c['n_in'],
             n_seq_out=c['n_out'], savedir=folder(ctx), **kw)
    return nets(p)


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f()


def windows(c, a, fh):
    n_in, n_out, nt = c['n_in'], c['n_out'], a.shape[1]
    full = nt - (n_in - 1 + fh + n_out) + 1
    x = np.array([a[:, t:t + n_in].T for t in range(full)]).reshape(full, n_in, len(a))
    y = np.array([a[:, t + n_in - 1 + fh:t + n_in - 1 + fh + n_out].T.reshape(-1) for t in range(full)]).reshape(full, n_out * len(a))
    return x, y


def judge(c, a, got, fh, what):
    x, y = got
    x, y = np.asarray(x), np.asarray(y)
    fx, fy = windows(c, a, fh)
    require(x.ndim == 3 and len(x) == len(y) and len(fx) - 1 <= len(x) <= len(fx),
            lambda: f'{what}: {x.shape} inputs, {y.shape} outputs; {len(fx)} windows in {a.shape[1]} snapshots')
    equal(x, fx[:len(x)], what + ': inputs')
    equal(y, fy[:len(y)], what + ': outputs')


def sequences(c, ctx):
    c = dict(c, kind='real' if c['kind'] in ('complex', 'real-valued') else c['kind'])
    nt = c['n_in'] + c['n_out'] + c['fh'] - 1 + c['extra']
    a = series(c, nt)
    keep = a.copy()
    m = model(c, ctx)
    quiet(lambda: m.model_initialize(a))
    args = dict(fh=c['fh']) if c['fh'] > 1 or c['seed'] % 2 else {}
    judge(c, a, quiet(lambda: m.extract_sequences(a, **args)), c['fh'], 'sequences')
    equal(a, keep, 'data after extract_sequences')
    core.raises(ValueError, lambda: quiet(lambda: m.extract_sequences(a, fh=-(c['seed'] % 3))), 'horizon below one')
    ctx.label(f'n_in={c["n_in"]}', f'n_out={c["n_out"]}', f'fh={c["fh"]}', f'windows={min(c["extra"], 2)}')
    ctx.nontrivial(c['extra'] >= 2 and (c['n_out'] > 1 or c['nf'] > 1))


def part(a, p):
    return np.asarray(a.real if p == 'real' else a.imag, dtype=float)


def expected(c, a, f):
    """First snapshots kept, every run of n_out later ones by the window before it."""
    n_in, n_out, nt = c['n_in'], c['n_out'], a.shape[1]
    out = np.zeros(a.shape, dtype=complex)
    out[:, :n_in] = a[:, :n_in]
    for t in range(n_in, nt, n_out):
        k = min(n_out, nt - t)
        v = f('real', part(a, 'real')[:, t - n_in:t].T)
        if not np.all(np.isreal(a)):
            v = v + 1j * f('imag', part(a, 'imag')[:, t - n_in:t].T)
        out[:, t:t + k] = v.reshape(n_out, -1)[:k].T
    return out


def inference(c, ctx):
    nt = c['n_in'] + c['extra']
    a = series(c, nt)
    keep = a.copy()
    m = model(c, ctx)
    quiet(lambda: m.model_initialize(a))
    fake = m.model = Fake(c['n_in'], c['n_out'], c['nf'], c['seed'])
    args = dict(idx=c['idx']) if c['idx'] or c['seed'] % 2 else {}
    got = quiet(lambda: m.model_inference(a, **args))
    equal(a, keep, 'data after inference')
    want = expected(c, a, fake.apply)
    core.same_shape(got, want, 'prediction')
    equal(got[:, :c['n_in']], want[:, :c['n_in']], 'snapshots given')
    close(got, want, 'prediction', rtol=1e-10)
    parts = ['real'] + (['imag'] if not np.all(np.isreal(a)) else [])
    if c['extra'] or fake.loaded:
        base = [os.path.join(folder(ctx), f'{p}{c["idx"]}.weights.h5') for p in parts]
        require([os.path.abspath(v) for v in fake.loaded] == base, lambda: f'weights loaded: {fake.loaded}, expected {base}')
    # the prediction at a time does not depend on the data from then on
    if c['extra'] > 1:
        t = c['n_in'] + c['seed'] % c['extra']
        b = a.copy()
        b[:, t:] = series(c, nt, 9)[:, t:]
        if np.all(np.isreal(b)) == np.all(np.isreal(a)):
            m.model = Fake(c['n_in'], c['n_out'], c['nf'], c['seed'])
            first = c['n_in'] + -(-(t - c['n_in'] + 1) // c['n_out']) * c['n_out']      # first window that reaches `t`
            close(quiet(lambda: m.model_inference(b, **args))[:, :first], got[:, :first], 'prediction with later data changed', rtol=1e-10)
    if c['n_in'] > 1:
        core.raises(ValueError, lambda: quiet(lambda: m.model_inference(a[:, :c['n_in'] - 1 - c['seed'] % (c['n_in'] - 1) if c['n_in'] > 2 else 1], **args)),
                    'inference on less than a window')
    ctx.label(c['kind'], f'n_in={c["n_in"]}', f'n_out={c["n_out"]}', 'partial' if c['extra'] % c['n_out'] else 'whole')
    ctx.nontrivial(c['extra'] > c['n_out'] and (c['n_out'] > 1 or c['nf'] > 1))


def training(c, ctx):
    """What the networks are trained on: real and imaginary parts, each to its own file."""
    nt = c['n_in'] + c['n_out'] + 1 + c['extra']
    a, v = series(c, nt), series(c, nt + 2, 3)
    keep, keepv = a.copy(), v.copy()
    m = model(c, ctx)
    quiet(lambda: m.model_initialize(a))
    fake = m.model = Fake(c['n_in'], c['n_out'], c['nf'], c['seed'])
    quiet(lambda: m.model_train(a, v, idx=c['idx']))
    equal(a, keep, 'training data after training')
    equal(v, keepv, 'validation data after training')
    parts = ['real'] + (['imag'] if not np.all(np.isreal(a)) else [])
    require(len(fake.fits) == len(parts), lambda: f'{len(fake.fits)} fits for {parts}')
    for p, (x, y, valid, files) in zip(parts, fake.fits):
        judge(c, part(a, p), (x, y), 1, f'training set, {p}')
        judge(c, part(v, p), valid[:2], 1, f'validation set, {p}')
        require([os.path.abspath(f) for f in files] == [os.path.join(folder(ctx), f'{p}{c["idx"]}.weights.h5')],
                lambda: f'weights of the {p} part go to {files}')
    ctx.label(c['kind'], f'parts={len(parts)}')
    ctx.nontrivial(c['extra'] >= 1 and (c['n_out'] > 1 or c['nf'] > 1))


def lstm(c, ctx):
    """Real networks: training leaves weights by which inference predicts."""
    c = dict(c, extra=c['extra'] % 6)
    nt = c['n_in'] + c['n_out'] + 6 + c['extra']
    a, v = series(c, nt), series(c, nt, 3)
    m = model(c, ctx, 'lstm' if c['seed'] % 2 else 'LSTM', n_neurons=3, epochs=1 + c['seed'] % 2, batch_size=4)

    def run():
        m.model_initialize(a)
        m.model_train(a, v, idx=c['idx'])
        return m.model_inference(v, idx=c['idx'])
    got = quiet(run)
    parts = ['real'] + (['imag'] if not np.all(np.isreal(a)) else [])
    for p in parts:
        f = os.path.join(folder(ctx), f'{p}{c["idx"]}.weights.h5')
        require(os.path.isfile(f), lambda: f'no weights of the {p} part: {os.listdir(folder(ctx))}')
    last = []

    def net(p, x):
        if last != [p]:
            m.model.load_weights(os.path.join(folder(ctx), f'{p}{c["idx"]}.weights.h5'))
            last[:] = [p]
        return np.asarray(m.model.predict(np.asarray(x, dtype=np.float32)[None], verbose=0), dtype=float)[0]
    if np.all(np.isreal(v)) != np.all(np.isreal(a)):
        raise core.Skip('parts')
    want = quiet(lambda: expected(c, v, net))
    close(got, want, 'prediction', rtol=1e-4)
    core.raises(ValueError, lambda: quiet(lambda: model(c, ctx, 'transformer').model_initialize(a)), 'unknown network')
    ctx.label(c['kind'], f'parts={len(parts)}')
    ctx.nontrivial(c['n_out'] > 1 or c['nf'] > 1)


def small():
    return cases().map(lambda c: dict(c, n_in=min(c['n_in'], 4), n_out=min(c['n_out'], 4)))


SUBS = [Sub('sequences', cases, sequences, quick=1200, thorough=15000),
        Sub('inference', cases, inference, quick=1500, thorough=20000),
        Sub('training', cases, training, quick=600, thorough=6000),
        Sub('lstm', small, lstm, quick=10, thorough=150, case_limit=120)]
