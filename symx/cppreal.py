"""The C++ modules of the repository as they are (real dolfin, doubles), for replays.

build(modules) compiles the current sources of /repo/cpp into a scratch directory with the
flags of the repository's build; prepare() makes Python import them from there.
"""
import atexit, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VAR = 'VERIF_CPPREAL'


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd[-3:]), p.stdout[-2000:]))
    return p.stdout


def build(modules):
    if os.environ.get(VAR):
        return
    from .cppload import MODULES, PYBIND
    d = tempfile.mkdtemp(prefix='symx_real_')
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    src = os.path.join(REPO, 'cpp')
    suffix = _run(['/usr/bin/python3-config', '--extension-suffix']).strip()
    inc = _run(['pkg-config', '--cflags-only-I', 'dolfin']).split() + ['-I/usr/include/eigen3', '-isystem', PYBIND,
                                                                       '-I/usr/include/python%d.%d' % sys.version_info[:2]]
    defs = ['-DHAS_HDF5', '-DHAS_SLEPC', '-DHAS_PETSC', '-DHAS_UMFPACK', '-DHAS_CHOLMOD', '-DHAS_SCOTCH', '-DHAS_ZLIB', '-DHAS_MPI',
            '-DPYBIND11_INTERNALS_VERSION=5']
    flags = ['-O1', '-w', '-std=c++11', '-fPIC', '-fvisibility=hidden'] + defs + inc
    objs = {}
    for m in modules:
        s, fl, common = MODULES[m]
        objs[m] = (s, ['-DMODULE_NAME=' + m] + fl)
        for c in common + (['predicates'] if common else []):
            objs[c] = (c, [])

    def comp(o):
        s, fl = objs[o]
        _run(['g++', '-c'] + fl + flags + [os.path.join(src, s + '.cpp'), '-o', os.path.join(d, o + '.o')])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(comp, sorted(objs, key=lambda o: not o.startswith('particle'))))

    def link(m):
        common = MODULES[m][2]
        os_ = [m] + common + (['predicates'] if common else [])
        _run(['g++', '-shared'] + [os.path.join(d, o + '.o') for o in os_] + ['-o', os.path.join(d, m + suffix), '-ldolfin'])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(link, modules))
    os.environ[VAR] = d


def prepare():
    sys.path.insert(0, os.environ[VAR])
    import dolfin                    # noqa: F401
    import dt_pybind11_bridge        # noqa: F401
