#!/opt/veriftools/pyvenv/bin/python3
"""check.py <PROPERTY> [--tier quick|thorough] [--job SUBSTR] [-v]

Decides one property: every harness of the property is executed symbolically over the
current source of /repo; counterexamples are replayed on the real code before they are
reported.  Exit 0: held on everything explored.  Exit 1: VIOLATION (replayed).  Exit 2:
no answer (solver unknown, unsupported operation, counterexample that does not replay).
"""
import argparse, concurrent.futures as cf, ctypes, hashlib, importlib, json, multiprocessing, os, pickle, resource, select, signal, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('OMP_NUM_THREADS', '1')
sys.dont_write_bytecode = True
PY_REAL = '/opt/venv/bin/python'
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


def limits():
    """A loop that allocates without end must not take the machine along."""
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def run_job(args):
    """One symbolic exploration, in a worker process (of its own where C++ code runs)."""
    prop, modname, idx, tier, deadline = args
    mod = importlib.import_module('props.' + modname)
    if not mod.jobs(tier)[idx].get('cpp'):
        return explore_job(args)
    r, w = os.pipe()
    beat = multiprocessing.RawValue('l', 0)
    pid = os.fork()
    if pid == 0:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)   # ends with its parent
        os.close(r)
        out = None
        try:
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)

            def send(res):
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(res, f)
                os._exit(0)
            send(explore_job(args, send, beat))
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(3)
    os.close(w)
    from symx.engine import STUCK_S
    still, last, stuck = 0, None, False
    while not select.select([r], [], [], STUCK_S)[0]:
        b = beat.value
        still = still + 1 if b == last else 0
        last = b
        if still == 2:                     # hangs in C++ code, where no Python signal handler runs
            stuck = True
            os.kill(pid, signal.SIGABRT)
        if still == 4:
            os.kill(pid, signal.SIGKILL)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('the process running the C++ code ended with status %d' % st)
    res = pickle.loads(data)
    if stuck:
        for v in res['violations']:
            v['hang'] = True
    return res


def watch():
    """Which lines of the repository's Python source are executed (each location reports once)."""
    from symx import loader
    hit = {}
    mon = sys.monitoring
    mon.use_tool_id(3, 'lines')

    def line(code, n):
        if code.co_filename.startswith(loader.REPO):
            hit.setdefault((os.path.relpath(code.co_filename, loader.REPO), code.co_qualname), set()).add(n)
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    return hit


HIT = None


def explore_job(args, send=None, beat=None):
    global HIT
    if HIT is None:
        HIT = watch()
    prop, modname, idx, tier, deadline = args
    mod = importlib.import_module('props.' + modname)
    job = mod.jobs(tier)[idx]
    from symx import engine, kit
    t0 = time.time()
    e = engine.Engine(timeout_ms=job.get('timeout_ms', 20000), max_paths=job.get('max_paths', 200000), deadline=deadline)
    if beat is not None:
        e.beat = beat
    cpp = None
    if job.get('cpp'):
        from symx import cppload
        cpp = cppload.substitutes
    fn = getattr(mod, job['fn'])

    def result():
        st = e.st
        return dict(name=job['name'], fn=job['fn'], cfg=job.get('cfg', {}), cpp=job.get('cpp'), paths=st.paths, cut=st.cut, queries=st.queries,
                    solver_s=st.solver_s, checks=st.checks, trivial=st.trivial, unknown=st.unknown, reach=st.reach,
                    violations=st.violations, wall=time.time() - t0, hit={a: sorted(b) for a, b in HIT.items()})
    if send:
        def on_fault(what):
            try:
                e.violation(what)
            except BaseException as x:
                if not e.st.violations:
                    e.st.unknown.append('%s, and no model: %r' % (what, x))
            send(result())
        cppload.on_fault = on_fault

    def harness(en):
        k = kit.SymKit(en, cpp=cpp)
        cfg = dict(job.get('cfg', {}))
        k.store = cfg.pop('store', None)
        fn(k, **cfg)
    e.explore(harness)
    return result()


def replay(path, timeout=300):
    env = dict(os.environ)
    sh = 'set -a; . /opt/vp/env.sh >/dev/null 2>&1; set +a; ulimit -v 12000000; exec %s %s/replay.py %s' % (PY_REAL, HERE, path)
    p = subprocess.run(['bash', '-c', sh], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    return p.returncode, p.stdout


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--job', default='')
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--all', action='store_true', help='run every job even after a violation')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    from props import REGISTRY, info
    modname = REGISTRY[a.prop]
    mod = importlib.import_module('props.' + modname)
    P = mod.PROPERTY
    jobs = mod.jobs(a.tier)
    sel = [i for i, j in enumerate(jobs) if a.job in j['name']]
    budget = a.budget or (700 if a.tier == 'quick' else 6 * 3600)
    deadline = t0 + budget
    if any(jobs[i].get('cpp') for i in sel):
        from symx import cppload
        cppload.use_numpy1()
        try:
            cppload.build(sorted({m for i in sel for m in jobs[i].get('cpp') or ()}))
        except cppload.BuildError as x:
            print('ERROR the C++ sources do not compile for symbolic execution:\n%s' % x)
            sys.exit(2)
    # known findings: a violation is suppressed only if the job and message match an entry
    known = []
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            known = [x for x in json.load(f).get('known', []) if x['property'] == a.prop]
    except FileNotFoundError:
        pass
    rdir = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    confirmed, spurious, shown = [], [], set()
    tried = [0]

    def judge(r):
        """Replay the counterexamples of one job on the real code."""
        for v in r['violations']:
            hit = [x for x in known if x['job'] == r['name'] and x['match'] in v['msg']]
            if hit:
                if hit[0]['what'] not in shown:
                    shown.add(hit[0]['what'])
                    print('KNOWN-FINDING: property=%s %s' % (a.prop, hit[0]['what']), flush=True)
                continue
            if confirmed or tried[0] >= 24:
                continue
            tried[0] += 1
            path = os.path.join(rdir, '%s-%s-%d.json' % (a.prop, a.tier, tried[0]))
            with open(path, 'w') as f:
                json.dump(dict(property=a.prop, module=modname, fn=r['fn'], job=r['name'], cfg=r['cfg'], cpp=r['cpp'], inputs=v['inputs'],
                               draws=v.get('draws', []), msg=v['msg'], trace=v.get('trace')), f, indent=1)
            try:
                if r['cpp']:
                    from symx import cppreal
                    cppreal.build(sorted({m for j in jobs for m in j.get('cpp') or ()}))
                rc, out = replay(path, 60 if v.get('hang') else 300)
                if r['cpp'] and rc in (-6, -8, -11, 134, 136, 139):
                    out, rc = out + '\nproperty fails: the process was ended by a signal (%d)' % rc, 1
            except subprocess.TimeoutExpired:
                rc, out = (1, 'property fails: the code does not come to an end') if v.get('hang') else (9, 'timeout')
            if rc == 1:
                confirmed.append((path, r['name'], v['msg']))
                print('VIOLATION property=%s replay=%s' % (a.prop, path))
                print('  job %s: %s' % (r['name'], v['msg']))
                print('  inputs %s' % json.dumps(v['inputs'], sort_keys=True)[:1500])
                print('  replay: ' + (out.strip().splitlines() or ['the process was ended by the code'])[-1][:400], flush=True)
            else:
                spurious.append((path, r['name'], v['msg'], rc, out[-1500:], v.get('trace')))

    results, errors = [], []
    sel.sort(key=lambda i: -jobs[i].get('weight', 1))
    ctx = multiprocessing.get_context('fork')
    with cf.ProcessPoolExecutor(WORKERS, mp_context=ctx, initializer=limits) as ex:
        stopped = False
        futs = {ex.submit(run_job, (a.prop, modname, i, a.tier, deadline)): i for i in sel}
        for f in cf.as_completed(futs):
            try:
                r = f.result()
            except BaseException as x:     # a crashed worker is no answer
                errors.append('%s: worker died: %r' % (jobs[futs[f]]['name'], x))
                continue
            results.append(r)
            if a.v:
                print('%-44s paths=%d cut=%d checks=%d q=%d solver=%.1fs wall=%.1fs%s%s' % (
                    r['name'], r['paths'], r['cut'], r['checks'], r['queries'], r['solver_s'], r['wall'],
                    ' UNKNOWN ' + str(r['unknown'][:3]) if r['unknown'] else '',
                    ' VIOL ' + str([v['msg'] for v in r['violations']]) if r['violations'] else ''), flush=True)
            judge(r)
            if confirmed and not a.all:
                # one confirmed counterexample decides the property: the rest need not run
                stopped = True
                for q in futs:
                    q.cancel()
                for q in list(ex._processes.values()):
                    q.kill()
                break
    results.sort(key=lambda r: r['name'])

    unknown = [(r['name'], u) for r in results for u in r['unknown']]
    missing = []
    if not a.job and not confirmed:
        got = {}
        for r in results:
            for l, c in r['reach'].items():
                got[l] = got.get(l, 0) + c
        missing = [l for l in P.get('reach', []) if not got.get(l)]
        if a.tier == 'quick' and P.get('reach_thorough'):
            pass

    cov_stopped = stopped
    status = 1 if confirmed else (2 if (spurious or unknown or errors or missing) else 0)
    sha = hashlib.sha256()
    for f in P['files']:
        if os.path.exists(os.path.join(info.REPO, f)):
            with open(os.path.join(info.REPO, f), 'rb') as fh:
                sha.update(fh.read())
    hit = {}
    for r in results:
        for at, lines in r.get('hit', {}).items():
            hit.setdefault(at, set()).update(lines)
    executed = {}
    for fn, q in sorted(hit):
        if q != '<module>':
            executed.setdefault(fn, []).append(q)
    if os.environ.get('VERIF_LINES'):
        with open(os.path.join(os.environ['VERIF_LINES'], a.prop + '.json'), 'w') as f:
            json.dump([[fn, q, sorted(l)] for (fn, q), l in hit.items()], f)
    reach = {}
    for r in results:
        for l, c in r['reach'].items():
            reach[l] = reach.get(l, 0) + c
    cov = dict(
        explanation=P['explanation'],
        functions_encoded=P['functions'],
        python_functions_executed_this_run=executed,
        python_lines_executed_this_run=sum(len(l) for l in hit.values()),
        bounds=P['bounds'][a.tier] if isinstance(P['bounds'], dict) else P['bounds'],
        outside_the_claim=P.get('outside', []),
        harness_configurations=len(results),
        paths_explored=sum(r['paths'] for r in results),
        paths_cut_by_assumptions=sum(r['cut'] for r in results),
        assertions_decided=sum(r['checks'] for r in results),
        assertions_decided_by_simplifier=sum(r['trivial'] for r in results),
        solver_queries=sum(r['queries'] for r in results),
        solver_seconds=round(sum(r['solver_s'] for r in results), 2),
        solver='z3 (python3-vt)',
        inconclusive=['%s: %s' % u for u in unknown[:10]],
        unreplayed_counterexamples=[s[:4] for s in spurious[:5]],
        reachability_witnesses=reach,
        source_sha256=sha.hexdigest(),
        samples=[dict(job=r['name'], cfg=r['cfg'], paths=r['paths'], queries=r['queries'], reach=r['reach']) for r in results[:6]],
        known_findings=sorted(shown),
        stopped_at_first_violation=cov_stopped,
        exhaustive=status == 0,
    )
    ev = dict(property=a.prop, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=P.get('level', 'other'), coverage=cov,
              wall_s=round(time.time() - t0, 2), assumptions=P['assumptions'], violations=len(confirmed))
    if not a.job:
        with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    for s in spurious[:5]:
        print('NOT-REPRODUCED %s: %s (replay exit %s)\n%s' % (s[1], s[2], s[3], s[4]))
        if a.v and s[5]:
            print(s[5])
    for u in unknown[:10]:
        print('INCONCLUSIVE %s: %s' % u)
    for x in errors:
        print('ERROR ' + x)
    for l in missing:
        print('VACUOUS: no path reached "%s"' % l)
    print('%s %s tier=%s status=%d configs=%d paths=%d assertions=%d queries=%d solver=%.1fs wall=%.1fs' % (
        a.prop, P['title'], a.tier, status, len(results), cov['paths_explored'], cov['assertions_decided'], cov['solver_queries'],
        cov['solver_seconds'], time.time() - t0))
    sys.exit(status)


if __name__ == '__main__':
    main()
