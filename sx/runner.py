"""check <property>: symbolic exploration, replay, evidence, verdict."""
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
Z3PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def load_prop(pid):
    sys.path.insert(0, VERIF)
    return importlib.import_module('props.' + pid)


# ------------------------------------------------------------------- symbolic
def sym_job(arg):
    pid, hname, params, seed, deadline = arg
    if Z3PATH not in sys.path:
        sys.path.append(Z3PATH)
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    from . import core, instrument, trig, shims
    from .harness import SymInputs, Hang
    sys.setrecursionlimit(20000)
    instrument.install()
    prop = load_prop(pid)
    h = [x for x in prop.HARNESSES if x.name == hname][0]
    t0 = time.time()
    if h.job_s:
        deadline = min(deadline, t0 + h.job_s)
    ctx = core.Ctx(seed=seed, max_paths=h.max_paths, timeout_ms=h.timeout_ms,
                   obl_timeout_ms=h.obl_timeout_ms, deadline=deadline)
    shims.OBJ_ARRAYS[0] = h.obj_arrays
    ctx.on_path_start.append(trig.reset)

    def on_alarm(*a):
        raise Hang('time')
    signal.signal(signal.SIGALRM, on_alarm)
    instrument.FUNCTIONS.clear()
    errors = []

    devnull = open(os.devnull, 'w')
    real_out = sys.stdout

    def path():
        inp = SymInputs(ctx, params)
        inp.begin()
        signal.setitimer(signal.ITIMER_REAL, h.path_s, 3)
        try:
            sys.stdout = devnull
            try:
                h.fn(inp)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                sys.stdout = real_out
        except Hang:
            ctx.fail_path('did not terminate')
        except (core.Abort, core.Budget):
            raise
        except Exception as e:      # noqa
            tb = traceback.extract_tb(e.__traceback__)
            where = '; '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[-3:])
            ctx.fail_path(f'unexpected {type(e).__name__}: {str(e)[:200]} at {where}')
        finally:
            inp.end()
    err = None
    try:
        ctx.explore(path)
    except core.Abort:
        pass
    except BaseException as e:      # noqa
        err = f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-1500:]
    st = ctx.stats
    return dict(harness=hname, params=params, err=err, cex=ctx.cex, witnesses=ctx.witnesses,
                undecided=ctx.undecided[:20], wall=time.time() - t0,
                functions=sorted(instrument.FUNCTIONS),
                stats=dict(paths=st.paths, aborted=st.aborted, forks=st.forks, queries=st.queries,
                           solver_s=st.solver_s, obligations=st.obligations,
                           discharged=st.discharged, trivial=st.trivial,
                           unknown_feas=st.unknown_feas, unknown_obl=st.unknown_obl,
                           concretised=st.concretised, truncated=st.truncated,
                           reached=st.reached))


# ------------------------------------------------------------------- replay
def replay_main(pid):
    """stdin: JSON list of {harness, params, inputs}; stdout: JSON results."""
    from .harness import ConcInputs, Assume, CheckFailed, Hang
    sys.setrecursionlimit(5000)
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    items = json.load(sys.stdin)
    prop = load_prop(pid)
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    hs = {h.name: h for h in prop.HARNESSES}

    def on_alarm(*a):
        raise Hang('time')
    signal.signal(signal.SIGALRM, on_alarm)
    import warnings
    warnings.simplefilter('ignore')
    for it in items:
        inp = ConcInputs(it['inputs'], it['params'])
        inp.begin()
        status = 'ok'
        signal.setitimer(signal.ITIMER_REAL, it.get('limit', 10), 3)
        try:
            hs[it['harness']].fn(inp)
        except Assume:
            status = 'assume'
        except CheckFailed:
            pass
        except Hang:
            inp.failures.append('did not terminate')
        except Exception as e:     # noqa
            tb = traceback.extract_tb(e.__traceback__)
            where = '; '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[-3:])
            inp.failures.append(f'unexpected {type(e).__name__}: {str(e)[:300]} at {where}')
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                inp.end()
            except Exception:     # noqa
                pass
        if inp.failures:
            status = 'fail'
        out.write(json.dumps(dict(status=status, failures=[str(f)[:500] for f in inp.failures[:5]])) + '\n')
        out.flush()


def run_replay(pid, items, timeout=300):
    """-> list of results (None where the process died)"""
    res = []
    todo = list(items)
    while todo:
        p = subprocess.Popen([sys.executable, os.path.join(VERIF, 'run.py'), 'replay', pid],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            o, e = p.communicate(json.dumps(todo).encode(), timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
        lines = [json.loads(x) for x in o.decode().splitlines() if x.strip()]
        res += lines
        if len(lines) < len(todo):
            if e and not lines:
                sys.stderr.write(e.decode()[-2000:])
            res.append(None)
            todo = todo[len(lines) + 1:]
            if not lines and not todo:
                break
        else:
            break
    return res


# ------------------------------------------------------------------- check
def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = load_prop(pid)
    budget = getattr(prop, 'BUDGET', {}).get(tier, 420 if tier == 'quick' else 2400)
    deadline = t0 + budget
    jobs = []
    for h in prop.HARNESSES:
        for params in h.jobs(tier):
            jobs.append((pid, h.name, params, seed, deadline))
    ncpu = min(8, os.cpu_count() or 2, len(jobs))
    mpctx = mp.get_context('spawn')
    results = []
    pool_err = None
    if len(jobs) == 1 and False:
        results = [sym_job(jobs[0])]
    else:
        with mpctx.Pool(ncpu, maxtasksperchild=None) as pool:
            rs = [pool.apply_async(sym_job, (j,)) for j in jobs]
            for j, r in zip(jobs, rs):
                try:
                    results.append(r.get(timeout=max(30, deadline + 120 - time.time())))
                except BaseException as e:      # noqa
                    results.append(dict(harness=j[1], params=j[2], err=f'worker: {type(e).__name__} {e}',
                                        cex=[], witnesses=[], undecided=[], wall=0, functions=[],
                                        stats=None))
            pool.terminate()
    # ---- replay counterexamples and path witnesses on the plain code
    cexs, wits = [], []
    wlimit = getattr(prop, 'WITNESSES', {}).get(tier, 150 if tier == 'quick' else 1500)
    per_job = max(4, wlimit // max(1, len(jobs)))
    for r in results:
        for c in r['cex']:
            cexs.append(dict(harness=r['harness'], params=r['params'], inputs=c['inputs'], msg=c['msg']))
        ws = r['witnesses']
        if len(ws) > per_job:
            step = len(ws) / per_job
            ws = [ws[int(i * step)] for i in range(per_job)]
        for w in ws:
            wits.append(dict(harness=r['harness'], params=r['params'], inputs=w))
    # one counterexample per distinct message first
    seen, first, rest = {}, [], []
    for c in cexs:
        k = (c['harness'], c['msg'])
        n = seen.get(k, 0)
        if n < (2 if 'terminate' in c['msg'] else 5):
            (rest if n else first).append(c)
        seen[k] = n + 1
    cexs = (first + rest)[:80]
    known = load_known(pid)
    rep = run_replay(pid, cexs + wits)
    rep += [None] * (len(cexs) + len(wits) - len(rep))
    violations, spurious, validated, knowns = [], [], 0, []
    for it, r in zip(cexs, rep):
        if r is not None and r['status'] == 'fail':
            violations.append((it, r))
        elif r is None:
            spurious.append((it, 'replay process died'))
        else:
            spurious.append((it, r['status']))
    for it, r in zip(wits, rep[len(cexs):]):
        if r is None:
            continue
        if r['status'] == 'fail':
            violations.append((it, r))
        else:
            validated += 1
    real = []
    for it, r in violations:
        k = match_known(known, it, r)
        if k is not None:
            if k['id'] not in [x['id'] for x in knowns]:
                knowns.append(k)
        else:
            real.append((it, r))
    # a message that reproduced at least once is settled
    settled = set((it['harness'], it['msg']) for it, r in violations if 'msg' in it)
    bad_spurious = [(it, s) for it, s in spurious if (it['harness'], it['msg']) not in settled]
    # ---- vacuity
    vac = []
    hs = {h.name: h for h in prop.HARNESSES}
    for h in prop.HARNESSES:
        rr = [r for r in results if r['harness'] == h.name and r['stats']]
        tot_ob = sum(r['stats']['obligations'] for r in rr)
        if tot_ob == 0:
            vac.append(f'{h.name}: no obligation reached')
        for lab in h.reach:
            if not any(lab in r['stats']['reached'] for r in rr):
                vac.append(f'{h.name}: {lab} not reached')
    errs = [f"{r['harness']}{r['params']}: {r['err']}" for r in results if r['err']]
    undec = [f"{r['harness']}{r['params']}: {u}" for r in results for u in r['undecided']]
    S = [r['stats'] for r in results if r['stats']]
    tot = lambda k: sum(s[k] for s in S)
    conc = {}
    for s in S:
        for k, v in s['concretised'].items():
            conc[k] = conc.get(k, 0) + v
    funcs = sorted(set(f for r in results for f in r['functions'] if '._version:' not in f))
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=tot('paths'), transitions=tot('forks'),
            traces_validated_against_impl=validated,
            samples=[dict(harness=w['harness'], params=w['params'], inputs=w['inputs']) for w in wits[:3]],
            functions_encoded=funcs,
            solver_queries=tot('queries'), solver_time_s=round(tot('solver_s'), 3),
            obligations=tot('obligations'), obligations_discharged=tot('discharged'),
            obligations_discharged_by_simplifier=tot('trivial'),
            obligations_undecided=tot('unknown_obl'), feasibility_unknown=tot('unknown_feas'),
            concretisations=conc,
            exploration_truncated=[f"{r['harness']}{r['params']}" for r in results
                                   if r['stats'] and r['stats']['truncated'] and not r['cex']],
            bounds={h.name: h.bounds for h in prop.HARNESSES},
            reached={h.name: sorted(set(l for r in results if r['harness'] == h.name and r['stats']
                                        for l in r['stats']['reached'])) for h in prop.HARNESSES},
            jobs=[dict(harness=r['harness'], params=r['params'], wall_s=round(r['wall'], 2),
                       paths=r['stats']['paths'] if r['stats'] else None) for r in results],
            counterexamples_not_reproduced=len(bad_spurious),
            errors=errs, vacuity=vac,
            known_findings=[k['id'] for k in knowns],
            explanation='states = feasible symbolic paths of the real code, transitions = solver-'
                        'decided two-way forks; every obligation is an unsat verdict over all inputs '
                        'of its path within the stated bounds'),
        assumptions=list(getattr(prop, 'ASSUMPTIONS', [])),
        wall_s=round(time.time() - t0, 2), violations=len(real))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {tier}: jobs={len(jobs)} paths={tot('paths')} forks={tot('forks')} "
          f"obligations={tot('obligations')} discharged={tot('discharged')} queries={tot('queries')} "
          f"solver={tot('solver_s'):.1f}s validated={validated} wall={time.time()-t0:.1f}s")
    for r in sorted(results, key=lambda r: -r['wall'])[:4]:
        print(f"  slow: {r['harness']} {r['params']} {r['wall']:.1f}s")
    if conc:
        print('  concretised:', conc)
    if ev['coverage']['exploration_truncated']:
        print('  truncated:', ev['coverage']['exploration_truncated'])
    if tot('unknown_feas'):
        print('  feasibility unknown:', tot('unknown_feas'))
    for k in knowns:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if real:
        d = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        shown = set()
        n = 0
        for it, r in real:
            key = (it['harness'], r['failures'][0][:60])
            if key in shown or n >= 5:
                continue
            shown.add(key)
            n += 1
            path = os.path.join(d, f'{pid}_{n}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=pid, harness=it['harness'], params=it['params'],
                               inputs=it['inputs'], failures=r['failures'],
                               how=f'/verif/run.sh show {path}'), f, indent=1)
            print(f"  {it['harness']} {it['params']}: {r['failures'][0]}\n    inputs {json.dumps(it['inputs'])[:600]}")
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    # Inconclusive items are reported (here and in the evidence) but are not a
    # violation: every counterexample is judged by replaying the plain code.
    soft = 0
    for it, s in bad_spurious[:8]:
        print(f"NOT-REPRODUCED ({s}): {it['harness']} {it['params']} {it['msg']}\n   {json.dumps(it['inputs'])[:400]}")
        soft += 1
    for e in errs[:5]:
        print('ERROR', e)
        soft += 1
    for v in vac:
        print('VACUOUS', v)
        soft += 1
    for u in undec[:8]:
        print('UNDECIDED', u)
        soft += 1
    if tot('discharged') == 0 and validated == 0:
        return 2
    return 2 if soft and os.environ.get('SX_STRICT') else 0


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.isfile(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#') and not line.startswith('fixed:'):
                d = json.loads(line)
                if d.get('property') == pid:
                    out.append(d)
    return out


def match_known(known, it, r):
    for k in known:
        if k.get('harness') != it['harness']:
            continue
        if k.get('params') is not None and k['params'] != json.loads(json.dumps(it['params'])):
            continue
        if any(it['inputs'].get(n) != v for n, v in k.get('inputs', {}).items()):
            continue
        if not all(any(f.startswith(m) for m in k['failures']) for f in r['failures']):
            continue
        return k
    return None


def show(path):
    d = json.load(open(path))
    r = run_replay(d['property'], [d])
    print(json.dumps(r, indent=1))
    return 1 if r and r[0] and r[0]['status'] == 'fail' else 0
