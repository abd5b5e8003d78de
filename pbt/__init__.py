import sys, os, glob

def _find_hypothesis():
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    for p in glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages'):
        if p not in sys.path:
            sys.path.append(p)
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    # last resort: straight from the wheelhouse (a wheel is a zip)
    import zipfile, tempfile
    tgt = os.path.join(os.environ.get('VERIF_SCRATCH', tempfile.mkdtemp()), 'hyp')
    for pat in ('hypothesis-*cp312*', 'sortedcontainers-*', 'attrs-*'):
        for w in sorted(glob.glob('/opt/veriftools/wheels/' + pat)):
            zipfile.ZipFile(w).extractall(tgt)
    sys.path.append(tgt)
    import hypothesis  # noqa

_find_hypothesis()


# the package under test is always compiled from its source, never taken from a (possibly stale) bytecode cache
import importlib.machinery as _m


class _Fresh(_m.SourceFileLoader):
    def path_stats(self, path):
        raise OSError('no bytecode')


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != 'pyspod' and not name.startswith('pyspod.'):
            return None
        spec = _m.PathFinder.find_spec(name, path, target)
        if spec is not None and type(spec.loader) is _m.SourceFileLoader:
            spec.loader = _Fresh(spec.loader.name, spec.loader.path)
        return spec


sys.meta_path.insert(0, _Finder)
