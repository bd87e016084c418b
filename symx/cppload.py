"""Builds the C++ modules of the repository for symbolic execution and loads them.

build(modules) compiles the current sources of /repo/cpp, with `double` replaced by a
symbolic real (cpp/prelude.h) and dolfin by a stub (cpp/dolfin_stub.h), into a scratch
directory; substitutes(kit) gives the modules to the loader of the Python part.
"""
import atexit, importlib.machinery, importlib.util, os, re, shutil, struct, subprocess, sys, sysconfig, tempfile, types
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYBIND = '/opt/pybind11-2.10.4/pybind11/include'
DIR = None
SUFFIX = '.so'

BF = 'user_particle_boundary_functions'
# module: (source, flags, needs the common objects)
MODULES = {
    'dolfin_functions_solib': ('dolfin_functions_solib', [], ['MeshEntityArrays', 'dolfin_functions']),
    'mesh_entity_arrays_solib': ('mesh_entity_arrays_solib', [], []),
    'numpy_types_solib': ('numpy_types_solib', [], []),
    'segmented_array_pair_solib': ('segmented_array_pair_solib', [], []),
    BF + '_cartesian_x_solib': (BF + '_solib', ['-DPARTICLE_TYPE=cartesian_x', '-DPDIM=1'], []),
    BF + '_cartesian_xy_solib': (BF + '_solib', ['-DPARTICLE_TYPE=cartesian_xy', '-DPDIM=2'], []),
    BF + '_cartesian_xyz_solib': (BF + '_solib', ['-DPARTICLE_TYPE=cartesian_xyz', '-DPDIM=3'], []),
    BF + '_2D_e_cartesian_xy_solib': (BF + '_2D_e_solib', ['-DPARTICLE_TYPE=cartesian_xy', '-DPDIM=2'], []),
    'upbfs_spherical_r_solib': ('upbfs_spherical_r_solib', ['-DPARTICLE_TYPE=spherical_r', '-DPDIM=1'], []),
    'particle_cartesian_x_solib': ('particle_solib', ['-DPARTICLE_TYPE=cartesian_x', '-DPARTICLE_CARTESIAN_X', '-DPDIM=1'], ['MeshEntityArrays', 'dolfin_functions']),
    'particle_cartesian_xy_solib': ('particle_solib', ['-DPARTICLE_TYPE=cartesian_xy', '-DPARTICLE_CARTESIAN_XY', '-DPDIM=2'], ['MeshEntityArrays', 'dolfin_functions']),
    'particle_cartesian_xyz_solib': ('particle_solib', ['-DPARTICLE_TYPE=cartesian_xyz', '-DPARTICLE_CARTESIAN_XYZ', '-DPDIM=3'], ['MeshEntityArrays', 'dolfin_functions']),
    'particle_spherical_r_solib': ('particle_solib', ['-DPARTICLE_TYPE=spherical_r', '-DPARTICLE_SPHERICAL_R', '-DPDIM=1'], ['MeshEntityArrays', 'dolfin_functions']),
}


class BuildError(Exception):
    pass


def _scratch():
    global DIR
    if DIR is None:
        DIR = tempfile.mkdtemp(prefix='symx_cpp_')
        os.environ['SYMX_CPP_DIR'] = DIR
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(DIR, ignore_errors=True))
    return DIR


def _stub_headers(d):
    """Empty files for the dolfin and Eigen headers the sources include."""
    import re
    inc = os.path.join(d, 'include')
    os.makedirs(inc, exist_ok=True)
    src = os.path.join(REPO, 'cpp')
    for f in os.listdir(src):
        if not f.endswith(('.h', '.cpp')):
            continue
        with open(os.path.join(src, f), errors='replace') as fh:
            for name in re.findall(r'#\s*include\s*[<"]((?:dolfin|Eigen|ufc)[^>"]*)[>"]', fh.read()):
                if os.path.exists(os.path.join(src, name)):
                    continue
                p = os.path.join(inc, name)
                if not os.path.exists(p):
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    open(p, 'w').close()
    return inc


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd[-3:]), p.stdout[-3000:]))


def _const(m):
    """`constexpr` of a declaration that involves doubles: a symbolic real is no literal type."""
    decl = m.group(1)
    if '(' in decl:
        return ('' if re.search(r'\binline\b', decl) else 'inline') + decl
    return 'const' + decl


def _in_class(t, at):
    """Whether position `at` of a source text is directly in the body of a class."""
    code = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', lambda m: ' ' * len(m.group()), t[:at], flags=re.S)
    stack, start = [], 0
    for m in re.finditer('[;{}]', code):
        if m.group() == '{':
            head = code[start:m.start()]
            stack.append(bool(re.search(r'\b(class|struct|union)\b', head)) and '(' not in head.split('>')[-1])
        elif m.group() == '}' and stack:
            stack.pop()
        start = m.end()
    return bool(stack) and stack[-1]


def _sources(src, d):
    """The current sources, without `constexpr` doubles."""
    out = os.path.join(d, 'src')
    os.makedirs(out, exist_ok=True)
    for n in sorted(os.listdir(src)):
        if n.endswith(('.h', '.hpp', '.cpp', '.cc', '.inc')):
            with open(os.path.join(src, n), encoding='latin1') as f:
                t = f.read()
            if 'constexpr' in t:
                t = re.sub(r'(?<!if )\bconstexpr\b([^;{}=]*\bdouble\b[^;{}=]*)', _const, t)
                t = re.sub(r'\bstatic\s+const\b(?=[^;{}=(]*\bdouble\b[^;{}(]*[={])',
                           lambda m: 'inline static const' if _in_class(t, m.start()) else m.group(), t)
            with open(os.path.join(out, n), 'w', encoding='latin1') as f:
                f.write(t)
    return out


def build(modules):
    d = _scratch()
    inc = _stub_headers(d)
    cpp = os.path.join(HERE, 'cpp')
    src = _sources(os.path.join(REPO, 'cpp'), d)
    pyinc = '/usr/include/python%d.%d' % sys.version_info[:2]
    flags = ['-O0', '-g0', '-w', '-std=c++17', '-fPIC', '-fvisibility=hidden', '-D_GLIBCXX_ASSERTIONS', '-DPYBIND11_INTERNALS_VERSION=77',
             '-I', cpp, '-I', inc, '-isystem', PYBIND, '-isystem', pyinc]
    # the prelude, compiled once
    pch = os.path.join(d, 'prelude.h')
    with open(pch, 'w') as f:
        f.write('#include "%s"\n' % os.path.join(cpp, 'prelude.h'))
    _run(['g++'] + flags + ['-x', 'c++-header', pch, '-o', pch + '.gch'])
    pre = ['-include', pch]
    objs = {}
    for m in modules:
        s, fl, common = MODULES[m]
        objs[m] = (os.path.join(src, s + '.cpp'), ['-DMODULE_NAME=' + m] + fl)
        for c in common:
            objs[c] = (os.path.join(src, c + '.cpp'), [])
            objs['predicates'] = (os.path.join(cpp, 'predicates_stub.cpp'), [])
    objs['faults'] = (os.path.join(cpp, 'faults.cpp'), [])

    def comp(o):
        s, fl = objs[o]
        _run(['g++'] + flags + pre + fl + ['-I', src, '-c', s, '-o', os.path.join(d, o + '.o')])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(comp, sorted(objs, key=lambda o: not o.startswith('particle'))))

    def link(m):
        common = MODULES[m][2]
        os_ = [m, 'faults'] + common + (['predicates'] if common else [])
        _run(['g++', '-shared', '-Wl,-Bsymbolic'] + [os.path.join(d, o + '.o') for o in os_] + ['-o', os.path.join(d, m + SUFFIX)])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(link, modules))
    return d


# ---- called from C++

def number(v):
    """A value as a C++ double: symbolic terms as they are, Python numbers as floats."""
    from . import engine as E
    import numpy as np
    if isinstance(v, E.SymReal):
        return v
    if isinstance(v, E.SymInt):
        return E.SymReal(E.rv(v))
    if isinstance(v, E.Fraction):
        return E.SymReal(E.rv(v))
    if isinstance(v, np.ndarray):
        if v.size != 1 or v.dtype.names is not None:
            return None
        return number(v.reshape(-1).view(np.ndarray)[0])
    if isinstance(v, (bool, int, float, np.number, np.bool_)):
        return float(v)
    return None


_math = None


def math_fn(name):
    from . import npshim
    global _math
    if _math is None:
        _math = npshim.make_math()
    return getattr(_math, name)


def entities(mesh, k, i, e):
    """Indices of the dimension-e entities incident to entity i of dimension k."""
    return [int(v) for v in mesh.conn(k, e)[i]] if k != e else [i]


on_fault = None


def fault(what):
    """A memory-safety fault in the C++ code, where no exception can be thrown."""
    if on_fault is not None:
        on_fault(what)


def use_numpy1():
    """pybind11 2.10 knows the layout of numpy 1: use the one the repository runs with."""
    if 'numpy' in sys.modules:
        return
    p = os.path.join(_scratch(), 'np')
    os.makedirs(p, exist_ok=True)
    if not os.path.exists(os.path.join(p, 'numpy')):
        os.symlink('/usr/lib/python3/dist-packages/numpy', os.path.join(p, 'numpy'))
    sys.path.insert(0, p)


# ---- loading

_mods = {}
_saved = []


def _writable(path):
    """The writable segments (variables) of a loaded library, as (address, size)."""
    with open('/proc/self/maps') as f:
        base = min(int(l.split('-')[0], 16) for l in f if l.split(None, 5)[5:] == [path + '\n'])
    with open(path, 'rb') as f:
        elf = f.read()
    phoff, = struct.unpack_from('<Q', elf, 32)
    size, n = struct.unpack_from('<HH', elf, 54)
    out, relro = [], 0
    for i in range(n):
        kind, flags, _, vaddr, _, _, memsz, _ = struct.unpack_from('<IIQQQQQQ', elf, phoff + i * size)
        if kind == 1 and flags & 2:
            out.append((vaddr, vaddr + memsz))
        elif kind == 0x6474e552:
            relro = (vaddr + memsz + 4095) // 4096 * 4096
    return [(base + max(a, relro), b - max(a, relro)) for a, b in out if b > relro]


def restore():
    """Gives the variables of the modules the values they have after the import: a path starts
    like a process.  Function-local statics are initialised anew."""
    import ctypes
    for a, data in _saved:
        ctypes.memmove(a, data, len(data))


def module(name):
    if name not in _mods:
        path = os.path.join(DIR or os.environ['SYMX_CPP_DIR'], name + SUFFIX)
        loader = importlib.machinery.ExtensionFileLoader(name, path)
        spec = importlib.util.spec_from_file_location(name, path, loader=loader)
        m = importlib.util.module_from_spec(spec)
        loader.exec_module(m)
        import ctypes
        if not _mods:
            ctypes.CDLL(path).symx_install_handlers()
        ctypes.CDLL(path).symx_loaded()
        _saved.extend((a, ctypes.string_at(a, n)) for a, n in _writable(os.path.realpath(path)))
        _mods[name] = m
    return _mods[name]


def _wrap(v):
    from . import npshim
    import numpy as np
    if type(v) is np.ndarray:
        return v.view(npshim.SymArr)
    if isinstance(v, tuple):
        return tuple(_wrap(x) for x in v)
    if isinstance(v, list):
        return [_wrap(x) for x in v]
    return v


def _plain(v):
    import numpy as np
    if isinstance(v, np.ndarray) and type(v) is not np.ndarray:
        return v.view(np.ndarray)
    return v


def _sap_class(base):
    def wrap(n):
        f = getattr(base, n)

        def g(self, *a, **k):
            return _wrap(f(self, *[_record(x) for x in a], **k))
        g.__name__ = n
        return g
    return type(base.__name__, (base,), {n: wrap(n) for n in dir(base) if not n.startswith('_')})


def _record(v):
    from . import npshim
    import numpy as np
    if isinstance(v, npshim.Record):
        v = v._a[v._i:v._i + 1]
    if isinstance(v, np.ndarray) and v.dtype.names is not None and any(npshim.kind(v.dtype[n]) == 'i' for n in v.dtype.names):
        # integer members of a C++ record are machine integers
        o = np.zeros(v.shape, dtype=[(n, np.int32 if npshim.kind(v.dtype[n]) == 'i' else v.dtype[n]) for n in v.dtype.names])
        for n in v.dtype.names:
            o[n] = v.view(np.ndarray)[n]
        return o
    return _plain(v)


def _module_proxy(name):
    m = module(name)
    p = types.ModuleType(name)
    for n in dir(m):
        o = getattr(m, n)
        if n.startswith('__'):
            continue
        if n.startswith('SegmentedArrayPair_'):
            o = _sap_class(o)
        setattr(p, n, o)
    return p


_proxies = {}


def substitutes(kit):
    restore()

    def lazy(n):
        def f():
            if n not in _proxies:
                _proxies[n] = _module_proxy(n)
            return _proxies[n]
        return f
    return {n: lazy(n) for n in MODULES}
