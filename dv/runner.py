"""Runs the proof tasks of a property in parallel and reports."""
import gc, json, os, re, resource, subprocess, sys, time, traceback, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.abspath(__file__))
import tasks as tasktab

MEM = 7 << 30


def worker(task, prop, deadline, drv, cap):
    """one task, in its own process: prints one JSON line"""
    gc.disable()
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    t0 = time.time()
    import mirsrv, run1
    from vals import Unsupported
    r = dict(root=task['root'], focus=task['focus'], opts=task['opts'], status='ok')
    eng = None
    try:
        srv = mirsrv.Server(drv, cap)
        eng, outs = run1.run_roomy(srv, task['root'], focus=task['focus'], pre=task['pre'], kind=task['kind'],
                                   opts=task['opts'], deadline=deadline)
        r['paths'] = len(outs)
    except Unsupported as e:
        r['status'] = 'undecided'
        r['reason'] = 'outside the fragment: ' + str(e)[:300]
    except MemoryError:
        r['status'] = 'undecided'
        r['reason'] = 'memory limit'
    except Exception as e:
        r['status'] = 'undecided'
        r['reason'] = 'internal error: %s: %s' % (type(e).__name__, str(e)[:200])
        r['trace'] = traceback.format_exc()[-1500:]
    eng = eng or run1.LAST[0]
    if eng is not None:
        r['steps'] = eng.steps
        r['solver_calls'] = eng.sol.n
        r['solver_s'] = round(eng.sol.t, 2)
        r['functions'] = sorted(k for k in eng.inlined if 'xtra' in k)
        r['modelled'] = sorted(eng.modelled)
        r['blocks'] = reached(srv, eng)
        r['loops'] = {k: v[1:] for k, v in eng.loopstats.items()}
        if r['status'] == 'ok':
            n, bad = {}, {}
            for o in eng.obl:
                c = n.setdefault(o.clause, [0, 0])
                c[0] += 1
                if o.ok:
                    c[1] += 1
                else:
                    k = (o.clause, o.where, o.detail)
                    if k not in bad:
                        bad[k] = dict(clause=o.clause, where=o.where, detail=o.detail, model={str(a): str(b) for a, b in (o.model or {}).items()} if isinstance(o.model, dict) else str(o.model))
            r['clauses'] = n
            r['order'] = [[a, b, w] for (a, b), w in eng.spec.order.items()]
            r['failed'] = list(bad.values())
    r['wall'] = round(time.time() - t0, 1)
    print(json.dumps(r))


def reached(srv, eng):
    """of each function of xtra: the basic blocks on a path without unwinding, and those that some feasible path reached"""
    cov = {}
    for inst, (b, succ, *_) in eng.cfg_cache.items():
        k = b['name']
        if not re.match(r'<*&*(xtra::|.* as xtra::)', k) or k not in eng.seen:
            continue
        todo, all_ = [0], {0}
        while todo:
            for x in succ[todo.pop()]:
                if x not in all_:
                    all_.add(x)
                    todo.append(x)
        k = re.sub(r'\b(Strong|Weak|Either|Tx\w+)\b', '_', k)
        a = cov.setdefault(k, [set(), set()])
        a[0].update(x for x in all_ if b['blocks'][x]['terminator']['kind'] != 'Unreachable')
        a[1].update(eng.seen[b['name']])
    return {k: [sorted(x), sorted(y & x)] for k, (x, y) in cov.items()}


def tname(t):
    o = ','.join('%s=%s' % x for x in sorted(t['opts'].items()))
    return t['root'] + ('(' + ' '.join(t['focus']) + ')' if t['focus'] else '') + ('[' + o + ']' if o else '')


def run_tasks(ts, prop, drv, cap, budget, per):
    """parallel, costly ones first"""
    t0 = time.time()
    todo = sorted(range(len(ts)), key=lambda i: -ts[i]['cost'])
    running, res = {}, [None] * len(ts)
    ncpu = min(8, os.cpu_count() or 8)
    while todo or running:
        while todo and len(running) < ncpu:
            i = todo.pop(0)
            left = budget - (time.time() - t0)
            if left < 5:
                res[i] = dict(root=ts[i]['root'], focus=ts[i]['focus'], opts=ts[i]['opts'], status='undecided', reason='no time left in this run', wall=0)
                continue
            d = min(per, left)
            p = subprocess.Popen([sys.executable, os.path.join(HERE, 'runner.py'), '--worker', json.dumps([ts[i], prop, d, drv, cap])],
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=HERE)
            running[i] = (p, time.time() + d + 30)
        time.sleep(0.02)
        for i, (p, dl) in list(running.items()):
            if p.poll() is None and time.time() < dl:
                continue
            if p.poll() is None:
                p.kill()
            out = p.stdout.read()
            p.wait()
            del running[i]
            try:
                res[i] = json.loads(out.strip().splitlines()[-1])
            except Exception:
                res[i] = dict(root=ts[i]['root'], focus=ts[i]['focus'], opts=ts[i]['opts'], status='undecided', reason='time or memory limit', wall=0)
    return res


TRUSTED = [
    'rustc nightly (MIR construction and monomorphisation of the current source), the symbolic executor in dv/ (sym.py, spec.py, terms.py, vals.py), z3',
    'contracts assumed for std (Arc, Weak, Mutex, atomics, VecDeque, Vec, BinaryHeap, Waker), spin::Mutex, catty, event-listener, stated in dv/models.py and dv/spec.py',
    'atomics are taken to be sequentially consistent; mutexes are not poisoned and nothing unwinds; counters do not overflow upwards; a reference is aligned and not null',
    'wakers do not call back into the channel while it is locked; user futures and handlers are the arbitrary ones of vharness/src/lib.rs',
    'parametricity: the generic code is verified for one opaque actor, message, broadcast message and reply type',
    'a queue of a mailbox that is upgraded temporarily under the channel lock is not left as its last owner (known finding)',
]


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    import mirsrv
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    replays = os.path.join(VERIF, 'build', 'replay')
    os.makedirs(replays, exist_ok=True)
    ts = tasktab.tasks(prop, tier)
    try:
        drv, cap = mirsrv.build()
    except mirsrv.BuildError as e:
        print('the harness does not build against /repo: ' + str(e)[-3000:])
        drv = None
    budget, per = (760, 420) if tier == 'quick' and prop != 'ALL' else (6000, 3000)
    res = run_tasks(ts, prop, drv, cap, budget, per) if drv else []
    for alt in tasktab.ALT.get(prop, ()):
        # the invariant of this check is one of several templates: another one may be inductive where the first is not
        if drv and any(f['clause'].startswith(prop + '.') for r in res for f in r.get('failed', ())):
            ts2 = [dict(t, opts={k: alt.get(k, v) for k, v in t['opts'].items()}) for t in ts]
            redo = [i for i in range(len(ts)) if ts2[i]['opts'] != ts[i]['opts']]
            r2 = run_tasks([ts2[i] for i in redo], prop, drv, cap, max(60, budget - (time.time() - t0)), per)
            if not any(f['clause'].startswith(prop + '.') for r in r2 for f in r.get('failed', ())) and all(r['status'] == 'ok' for r in r2):
                for i, r in zip(redo, r2):
                    ts[i], res[i] = ts2[i], r
                break
    tot = dis = 0
    failed, undecided, funcs, models, loops = [], [], set(), set(), {}
    clauses, per_task = {}, []
    steps = solv = 0
    st = 0.0
    names = prop + '.'
    extra = tasktab.EXTRA.get(prop, ())
    rel = prop == 'C23'
    bad_of, blocks = {}, {}
    for t, r in zip(ts, res):
        if rel and '::mc_' not in t['root']:
            bad_of.setdefault(t['root'], set()).update(f['clause'] for f in r.get('failed', ()))

    tkey = lambda t: repr((t['root'], t['focus'], t['pre'], t['kind'], sorted(t['opts'].items())))
    owner = {p: {tkey(t) for t in l} for p, l in tasktab.QUICK.items()} if prop == 'ALL' else {}

    def mine(t, c):
        if prop == 'ALL':      # would the check of a property see it?
            return any(tkey(t) in l for p, l in owner.items() if p == c.split('.')[0] or c in tasktab.EXTRA.get(p, ()) or p == 'C23' and '::mc_' in t['root'])
        return ('::mc_' in t['root'] if rel else c.startswith(names) or c in extra)

    def excused(t, c):
        if not rel:
            return False
        b = bad_of.get(tasktab.twin(t['root']), ())
        return any(x in b for x in tasktab.TWIN_CLAUSE.get(c, (c,)))
    for t, r in zip(ts, res):
        funcs.update(r.get('functions', ()))
        for k, (x, y) in r.get('blocks', {}).items():
            b = blocks.setdefault(k, [set(), set()])
            b[0].update(x)
            b[1].update(y)
        models.update(r.get('modelled', ()))
        steps += r.get('steps', 0)
        solv += r.get('solver_calls', 0)
        st += r.get('solver_s', 0)
        for k, v in r.get('loops', {}).items():
            loops[k] = max(loops.get(k, 0), v[0])
        n = d = 0
        for c, (a, b) in r.get('clauses', {}).items():
            if mine(t, c):
                n += a
                d += b
                x = clauses.setdefault(c, [0, 0])
                x[0] += a
                x[1] += b
        tot += n
        dis += d
        if r['status'] != 'ok':
            undecided.append(dict(task=tname(t), reason=r['reason'], trace=r.get('trace')))
        for f in r.get('failed', ()):
            if mine(t, f['clause']) and not excused(t, f['clause']):
                failed.append(dict(f, task=tname(t)))
        per_task.append(dict(task=tname(t), status=r['status'], obligations=n, discharged=d, paths=r.get('paths'), wall_s=r.get('wall')))
    if prop == 'C24':
        # the locks are always nested in one order: the relation 'taken while holding' has no cycle
        edges = {}
        for t, r in zip(ts, res):
            for a, b, w in r.get('order', ()):
                edges.setdefault((a, b), (w, tname(t)))
        def reach(a, b, seen):
            return any(y == b or y not in seen and reach(y, b, seen | {y}) for x, y in edges if x == a)
        for (a, b), (w, t) in sorted(edges.items()):
            tot += 1
            if a == b or reach(b, a, {b}):
                failed.append(dict(clause='C24.order', where=w, detail='a %s lock is taken while a %s lock is held, and elsewhere the other way round' % (b, a), model=None, task=t))
            else:
                dis += 1
        lock_order = sorted('%s -> %s' % x for x in edges)
    rc = 0
    # concrete runs of the real code: the replay of failed obligations, and a bounded stand-in for what is undecided
    import replay
    conc = replay.run(prop, failed, undecided, tier)
    for k in conc.get('known', ()):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if failed or conc.get('violation'):
        rc = 1
        path = os.path.join(replays, prop + '.txt')
        with open(path, 'w') as f:
            f.write('property %s\n' % prop)
            for x in failed:
                f.write('\nfailed obligation %s (%s)\n  task   %s\n  where  %s\n  verifier counterexample (symbolic state) %s\n' % (x['clause'], x['detail'], x['task'], x['where'], x['model']))
            f.write('\n' + (conc.get('text') or ''))
        if conc.get('violation'):
            print('VIOLATION property=%s replay=%s' % (prop, path))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    cov = dict(**(dict(lock_order=lock_order) if prop == 'C24' else {}), obligations=tot, discharged=dis, checker_cmd='python3 /verif/check.py %s --tier %s' % (prop, tier), trusted_base=TRUSTED,
               back_end='linear integer/boolean terms (dv/terms.py) decided by z3', clauses={k: dict(obligations=a, discharged=b) for k, (a, b) in sorted(clauses.items())},
               functions_under_contract=sorted(funcs), assumed_contracts=sorted(models), loops_cut=sorted(loops),
               basic_blocks=dict(total=sum(len(x) for x, _ in blocks.values()), reached=sum(len(y) for _, y in blocks.values()),
                                 not_reached={k: sorted(x - y) for k, (x, y) in sorted(blocks.items()) if x - y}),
               symbolic_steps=steps, solver_calls=solv, solver_s=round(st, 1), tasks=per_task, undecided=undecided,
               failed=[dict(clause=x['clause'], where=x['where'], detail=x['detail'], task=x['task']) for x in failed][:50],
               concrete=conc.get('coverage', {}))
    json.dump(dict(property=prop, tier=tier, seed=seed, level=tasktab.LEVEL.get(prop, 'proof'), coverage=cov, wall_s=round(time.time() - t0, 1)),
              open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d tasks, %d undecided, %.0f s' % (prop, tot, dis, len(ts), len(undecided), time.time() - t0))
    for u in undecided:
        print('  undecided %s: %s' % (u['task'], u['reason']))
    return rc


if __name__ == '__main__' and sys.argv[1] == '--worker':
    a = json.loads(sys.argv[2])
    a[0]['focus'] = tuple(a[0]['focus'])
    a[0]['pre'] = tuple(a[0]['pre'])
    if 'part' in a[0]['opts']:
        a[0]['opts']['part'] = tuple(a[0]['opts']['part'])
    worker(*a)
