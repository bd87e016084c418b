"""replay.py FILE: runs one counterexample on the unmodified code of /repo with the real
numpy and dolfin.  Exit 1: the property fails for these inputs.  0: it does not.  3: the
inputs do not satisfy the assumptions."""
import importlib, json, os, sys, tempfile, traceback, shutil
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(1, REPO)
with open(sys.argv[1]) as f:
    C = json.load(f)
work = tempfile.mkdtemp(prefix='replay')
os.chdir(work)
import numpy

_empty = numpy.empty


def poisoned(shape, dtype=float, *a, **k):
    """Uninitialised memory may hold anything: give it recognisable contents."""
    r = _empty(shape, dtype, *a, **k)
    try:
        if r.dtype.names:
            for n in r.dtype.names:
                r[n] = -7.25e8 if r.dtype[n].kind == 'f' else -77777
        elif r.dtype.kind == 'f':
            r[...] = -7.25e8
        elif r.dtype.kind in 'iu':
            r[...] = 77777 if r.dtype.kind == 'u' else -77777
    except Exception:
        pass
    return r


numpy.empty = poisoned
def run(C, quiet=False):
    """One case: (exit code, text)."""
    if C.get('cpp'):
        try:
            from symx import cppreal
            cppreal.prepare()
        except Exception as e:
            return 4, 'the C++ modules cannot be loaded: %r' % e
    from symx.kit import ConcKit, Skip, Failed
    mod = importlib.import_module('props.' + C['module'])
    k = ConcKit(C['inputs'], C.get('draws') or [])
    devnull = os.open(os.devnull, os.O_WRONLY)
    saved = os.dup(1)
    sys.stdout.flush()
    os.dup2(devnull, 1)
    try:
        try:
            cfg = dict(C['cfg'])
            k.store = cfg.pop('store', None)
            getattr(mod, C['fn'])(k, **cfg)
        finally:
            sys.stdout.flush()
            os.dup2(saved, 1)
            os.close(saved)
            os.close(devnull)
        return 0, 'holds'
    except Skip:
        return 3, 'assumption not satisfied by these inputs'
    except Failed as e:
        return 1, 'property fails: %s' % e
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        if not quiet:
            traceback.print_exc()
        if [f for f in tb if f.filename.startswith(REPO)] or C.get('cpp'):
            return 1, 'property fails: raised %s: %s' % (type(e).__name__, str(e)[:300])
        if isinstance(e, (AttributeError, TypeError, KeyError, IndexError, ValueError)):
            # what the code delivered lacks something that every use of it needs
            return 1, 'property fails: the result cannot be used: %s: %s' % (type(e).__name__, str(e)[:300])
        return 4, 'harness error %s' % e


rc = 0
try:
    if isinstance(C, list):
        for i, c in enumerate(C):
            os.makedirs(os.path.join(work, str(i)))
            os.chdir(os.path.join(work, str(i)))
            r, t = run(c, True)
            print('CASE %d %s: %s %s' % (r, c['job'], t.replace('\n', ' '), json.dumps(c['inputs'])[:300]), flush=True)
    else:
        rc, t = run(C)
        print(t)
finally:
    os.chdir('/')
    shutil.rmtree(work, ignore_errors=True)
sys.stdout.flush()
os._exit(rc)
