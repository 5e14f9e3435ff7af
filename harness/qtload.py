"""Import queueing_tool from /repo's working tree, with its Cython modules
built from the .pyx files into a scratch directory.

Nothing is written into /repo: python sources are imported from there with
bytecode caching off, and the extension modules come from the scratch
directory whatever *.so files may lie in the tree.
"""
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import warnings

REPO = os.environ.get('QT_REPO', '/repo')
CACHE = os.path.join(tempfile.gettempdir(), 'qtverif-%d' % os.getuid())


class BuildError(Exception):
    pass


def _digest(path):
    h = hashlib.sha256()
    with open(path, 'rb') as f:
        h.update(f.read())
    h.update(sys.version.encode())
    return h.hexdigest()[:24]


def build(pyx, name):
    """Compile one .pyx; returns the path of the shared object."""
    key = name.replace('.', '_') + '-' + _digest(pyx)
    out_dir = os.path.join(CACHE, key)
    base = name.rsplit('.', 1)[-1]
    so = os.path.join(out_dir, base + sysconfig.get_config_var('EXT_SUFFIX'))
    if os.path.exists(so):
        return so
    os.makedirs(CACHE, exist_ok=True)
    work = tempfile.mkdtemp(prefix='b-', dir=CACHE)
    try:
        c = os.path.join(work, base + '.c')
        src = os.path.join(work, base + '.pyx')
        shutil.copy(pyx, src)
        code = ('import sys; from Cython.Compiler.Main import compile, '
                'CompilationOptions as O; r = compile(sys.argv[1], '
                'O(output_file=sys.argv[2], language_level=2), full_module_name=sys.argv[3]); '
                'sys.exit(r.num_errors > 0)')
        r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code, src, c, name],
                           capture_output=True, text=True)
        if r.returncode or not os.path.exists(c):
            raise BuildError('cython failed on %s:\n%s' % (pyx, r.stderr + r.stdout))
        tmp = os.path.join(work, os.path.basename(so))
        inc = sysconfig.get_path('include')
        r = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-fwrapv',
                            '-I' + inc, c, '-o', tmp], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('gcc failed on %s:\n%s' % (pyx, r.stderr))
        os.makedirs(out_dir, exist_ok=True)
        os.replace(tmp, so)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return so


class PyxFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if not fullname.startswith('queueing_tool.'):
            return None
        stem = os.path.join(REPO, *fullname.split('.'))
        if os.path.exists(stem + '.py') or os.path.isdir(stem):
            return None
        if os.path.exists(stem + '.pyx'):
            so = build(stem + '.pyx', fullname)
            loader = importlib.machinery.ExtensionFileLoader(fullname, so)
            return importlib.util.spec_from_file_location(fullname, so, loader=loader)
        return None


def load():
    """Returns the queueing_tool package of the working tree."""
    if 'queueing_tool' in sys.modules:
        return sys.modules['queueing_tool']
    os.environ.setdefault('MPLBACKEND', 'Agg')
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
        os.environ.setdefault(v, '1')
    if 'MPLCONFIGDIR' not in os.environ:
        d = os.path.join(CACHE, 'mpl')
        os.makedirs(d, exist_ok=True)
        os.environ['MPLCONFIGDIR'] = d
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or '.') != os.path.realpath(REPO)]
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, PyxFinder())
    import importlib.metadata as md
    try:
        md.version('queueing-tool')
    except md.PackageNotFoundError:
        real = md.version
        real_dist = md.distribution

        def version(name):
            if name.replace('_', '-').lower() == 'queueing-tool':
                return '0.0.0'
            return real(name)
        md.version = version
        try:
            import pkg_resources  # noqa: F401
        except Exception:
            pass
    import queueing_tool
    got = os.path.realpath(queueing_tool.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise BuildError('queueing_tool imported from ' + got)
    return queueing_tool


if __name__ == '__main__':
    qt = load()
    print(qt.__file__)
    from queueing_tool.network.priority_queue import PriorityQueue
    import queueing_tool.network.priority_queue as p
    print(p.__file__, PriorityQueue([(1., 0)], 1).pop())
