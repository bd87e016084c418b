#!/opt/veriftools/pyvenv/bin/python3
"""validate.py [PROPERTY ...] [--per N]: compares the encoding with the real code.

For a sample of explored paths the solver gives inputs that follow the path; the same harness
then runs on the unmodified code with the real numpy, dolfin and h5py.  Both must agree that
the property holds.  Used while building, to find errors of the stand-ins; decides nothing."""
import argparse, importlib, json, os, random, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import concurrent.futures as cf


def one(a):
    modname, idx, per, tier = a
    mod = importlib.import_module('props.' + modname)
    job = mod.jobs(tier)[idx]
    from symx import engine, kit
    import time
    e = engine.Engine(timeout_ms=20000, deadline=time.time() + 120)
    cpp = None
    if job.get('cpp'):
        from symx import cppload
        cpp = cppload.substitutes
    out, n = [], [0]

    def harness(en):
        getattr(mod, job['fn'])(kit.SymKit(en, cpp=cpp), **job.get('cfg', {}))
        n[0] += 1
        if len(out) < per and (n[0] % 7 == 1 or n[0] < per // 2):
            m = en.nice_model([])
            out.append(dict(module=modname, fn=job['fn'], job=job['name'], cfg=job.get('cfg', {}), cpp=bool(job.get('cpp')), inputs=m, draws=[m.get(d) for d in en.draws]))
        if len(out) >= per:
            en.deadline = 1
    e.explore(harness)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('props', nargs='*')
    ap.add_argument('--per', type=int, default=4)
    ap.add_argument('--job', default='')
    a = ap.parse_args()
    from props import REGISTRY
    import check
    for p in a.props or REGISTRY:
        mod = importlib.import_module('props.' + REGISTRY[p])
        js = mod.jobs('quick')
        if any(j.get('cpp') for j in js):
            from symx import cppload
            cppload.use_numpy1()
            cppload.build(sorted({m for j in js for m in j.get('cpp') or ()}))
        with cf.ProcessPoolExecutor(8) as ex:
            cases = [c for r in ex.map(one, [(REGISTRY[p], i, a.per, 'quick') for i in range(len(js)) if a.job in js[i]['name']]) for c in r]
        if any(j.get('cpp') for j in js):
            from symx import cppreal
            cppreal.build(sorted({m for j in js for m in j.get('cpp') or ()}))
        with tempfile.TemporaryDirectory() as d:
            files = []
            for i in range(8):
                files.append('%s/%d.json' % (d, i))
                with open(files[-1], 'w') as f:
                    json.dump(cases[i::8], f)
            with cf.ThreadPoolExecutor(8) as ex:
                res = list(ex.map(check.replay, files))
        text = ''.join(o for _, o in res)
        rows = [l for l in text.splitlines() if l.startswith('CASE ')]
        bad = [l for l in rows if not l.startswith('CASE 0')]
        print('%s: %d paths replayed on the real code, %d disagree' % (p, len(rows), len(bad)))
        if len(rows) != len(cases):
            print('   lost cases!', text[-600:])
        for b in bad[:6]:
            print('   ' + b[:400])


if __name__ == '__main__':
    main()
