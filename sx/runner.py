"""Property check driver: explores every harness case of one property symbolically on a pool of worker processes,
replays counterexamples and a sample of the path witnesses on the unmodified sources, writes the evidence file."""
import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import select
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
REPLAY_PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable

PATH_LIMIT = float(os.environ.get('SX_PATH_LIMIT', '20'))
SLICE = float(os.environ.get('SX_SLICE', '1.5'))


# ---------------------------------------------------------------------------------------------
# worker side

def _alarm(sig, frm):
    from .engine import PathTimeout
    raise PathTimeout('time limit')


class FnRecorder:
    """Names of repository functions executed (sys.monitoring, each code object reported once)."""
    TOOL = 3

    def __init__(self):
        self.seen = set()
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, 'sx')
        except ValueError:
            return
        mon.register_callback(self.TOOL, mon.events.PY_START, self.cb)
        mon.set_events(self.TOOL, mon.events.PY_START)

    def cb(self, code, off):
        fn = code.co_filename
        if fn.startswith(REPO + '/big/'):
            self.seen.add(f'big/{os.path.basename(fn)}:{code.co_qualname}')
        return sys.monitoring.DISABLE


_rec = None


def explore(job, opts):
    """Explore (part of) one case for a time slice.  Returns a result dict."""
    from . import engine as G
    from .ctx import SymCtx
    from . import registry
    h = registry.HARNESSES[job['prop']][job['h']]
    params = job['params']
    E = G.Engine(query_timeout_ms=opts['query_ms'])
    G.Engine.current = E
    E.stats_paths = 0
    if job.get('prefix') is not None:
        E.set_prefix(job['prefix'])
    res = {'violation': None, 'samples': [], 'incon': [], 'labels': set(), 'open': [], 'fns': set(), 'known': set(), 'checked_paths': 0}
    if _rec is not None:
        _rec.seen.clear()
    t_end = time.perf_counter() + opts['slice']
    want = opts['samples']
    npath = 0
    from .instrument import SymHash
    while True:
        E.start_path()
        ctx = SymCtx(E, opts['known'])
        status = 'ok'
        info = None
        # the limit is on processor time, so that a busy machine changes nothing; three times that for code that waits
        signal.setitimer(signal.ITIMER_PROF, opts['path_limit'])
        signal.setitimer(signal.ITIMER_REAL, 3 * opts['path_limit'])
        try:
            try:
                h.fn(ctx, **params)
                status = 'ok'
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.setitimer(signal.ITIMER_REAL, 0)
        except G.Infeasible:
            status = 'infeasible'
        except G.Violation as e:
            status = 'violation'
            info = e
        except G.Unsupported as e:
            status = 'unsupported'
            info = str(e)
            if os.environ.get('SX_DEBUG'):
                traceback.print_exc()
        except G.PathTimeout as e:
            status = 'timeout'
            info = str(e)
        except RecursionError as e:
            status = 'unsupported'
            info = 'recursion limit'
        except G.Control:
            raise
        except BaseException as e:
            status = 'exception'
            info = e
        E.trail[E.pos:] = []
        if E.synced > len(E.trail):
            E._pop_to(len(E.trail))
        st = E.stats
        if status == 'infeasible':
            st.infeasible += 1
        else:
            npath += 1
            m = None
            try:
                if status != 'ok' or not E.pure() or (npath & (npath - 1)) == 0 or npath % 16 == 0:
                    m = E.path_model()
            except G.Infeasible:
                st.infeasible += 1
                status = 'infeasible'
                m = None
        if status == 'violation':
            model = info.model or m
            if model is None:
                res['incon'].append({'kind': 'unknown', 'label': info.label, 'inputs': None, 'trail': E.pos})
            else:
                st.paths += 1
                res['violation'] = {'label': info.label, 'inputs': ctx.model_inputs(model), 'kind': 'check'}
                if os.environ.get('SX_DEBUG'):
                    res['violation']['detail'] = '' if callable(info.detail) else repr(_safe_eval(E, model, info.detail))
        elif status == 'exception':
            st.paths += 1
            tb = traceback.extract_tb(info.__traceback__)
            where = [f'{os.path.basename(f.filename)}:{f.lineno} {f.name}' for f in tb[-5:]]
            if m is None:
                res['incon'].append({'kind': 'unknown', 'label': repr(info), 'inputs': None})
            else:
                res['violation'] = {'label': f'unexpected {type(info).__name__}: {str(info)[:200]}', 'inputs': ctx.model_inputs(m),
                                    'kind': 'exception', 'type': type(info).__name__, 'where': where}
        elif status in ('unsupported', 'timeout'):
            setattr(st, 'unsupported' if status == 'unsupported' else 'timeouts',
                    (st.unsupported if status == 'unsupported' else st.timeouts) + 1)
            st.paths += 1
            res['incon'].append({'kind': status, 'label': info, 'inputs': ctx.model_inputs(m) if m is not None else None})
        elif status == 'ok':
            st.paths += 1
            if E.unknown_hit:
                res['incon'].append({'kind': 'unknown', 'label': 'solver unknown on this path', 'inputs': ctx.model_inputs(m) if m is not None else None})
            elif ctx.nchecks:
                res['checked_paths'] += 1
            res['labels'] |= ctx.labels
            res['known'] |= ctx.known_hits
            if m is not None and want > 0 and (npath & (npath - 1)) == 0:
                want -= 1
                try:
                    res['samples'].append({'inputs': ctx.model_inputs(m), 'observed': ctx.model_observed(m)})
                except Exception as e:
                    res['incon'].append({'kind': 'observe', 'label': repr(e), 'inputs': None})
        if res['violation'] is not None and not opts.get('keep_going'):
            break
        if not E.backtrack():
            break
        if time.perf_counter() > t_end:
            # the current position is itself an open alternative
            pre = [(e.choice, e.value) for e in E.trail]
            res['open'] = [pre] + E.export_open()
            break
    if _rec is not None:
        res['fns'] = set(_rec.seen)
    res['stats'] = E.stats.as_dict()
    G.Engine.current = None
    return res


def _safe_eval(E, m, v):
    from .ctx import evaluate
    try:
        return evaluate(E, m, v)
    except Exception as e:
        return f'<{e!r}>'


def worker_main(conn, opts):
    global _rec
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    sys.setrecursionlimit(6000)
    _rec = FnRecorder()
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            return
        try:
            r = explore(job, opts)
        except BaseException as e:
            r = {'error': f'{type(e).__name__}: {e}\n{traceback.format_exc()}'}
        conn.send(r)


# ---------------------------------------------------------------------------------------------
# main side

class Replayer:
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', SX_REPO=REPO)
        self.p = subprocess.Popen([REPLAY_PY, os.path.join(VERIF, 'sx', 'replay_server.py')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=VERIF)

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None

    def run(self, req, timeout=10.0):
        for attempt in range(2):
            if self.p is None or self.p.poll() is not None:
                self.start()
            try:
                self.p.stdin.write((json.dumps(req) + '\n').encode())
                self.p.stdin.flush()
                break
            except BrokenPipeError:
                self.stop()
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.stop()
            return {'status': 'hang', 'observed': [], 'label': f'no result within {timeout:.0f} s'}
        line = self.p.stdout.readline()
        if not line:
            rc = self.p.wait()
            self.stop()
            return {'status': 'crash', 'observed': [], 'label': f'replay process ended ({rc})'}
        return json.loads(line)


def load(prop_module):
    from . import instrument
    instrument.install()
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, instrument.Finder({'big': os.path.join(REPO, 'big'), 'props': os.path.join(VERIF, 'props')}))
    return importlib.import_module(prop_module)


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p)) if x.get('status') == 'known']


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--deadline', type=float)
    ap.add_argument('--only', help='harness name')
    ap.add_argument('--case', help='JSON params subset')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('-v', '--verbose', action='store_true')
    a = ap.parse_args(argv)
    return check(a)


def check(a):
    t0 = time.time()
    pid = a.property
    index = json.load(open(os.path.join(VERIF, 'props', 'index.json')))
    module = index[pid]['module']
    level = 'model_checking'
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    deadline = a.deadline or (index[pid].get('deadline_' + tier) or (100 if tier == 'quick' else 720))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        load(module)
    except Exception as e:
        # the module under test (or a harness) cannot be loaded: report as an error, not a verdict
        traceback.print_exc()
        print(f'ERROR property={pid}: cannot load: {e}')
        return 2
    from . import registry
    hs = registry.HARNESSES[pid]
    kf = [k for k in known_findings() if k['property'] == pid]
    known_ids = [k['id'] for k in kf]
    rep = Replayer()
    opts = {'query_ms': 4000 if tier == 'quick' else 15000, 'slice': SLICE, 'samples': 3, 'path_limit': PATH_LIMIT,
            'known': known_ids, 'keep_going': a.keep_going}
    jobs = []
    ncases = 0
    case_info = []
    only = json.loads(a.case) if a.case else {}
    for hi, h in enumerate(hs):
        if a.only and h.name != a.only:
            continue
        for c in h.cases(tier):
            c = json.loads(json.dumps(c))
            if any(c.get(k) != v for k, v in only.items()):
                continue
            cid = len(case_info)
            case_info.append({'h': hi, 'params': c, 'pending': 1, 'paths': 0, 'checked': 0, 'incon': 0, 'time': 0.0})
            jobs.append({'prop': pid, 'h': hi, 'params': c, 'prefix': None, 'cid': cid})
    ncases = len(case_info)
    ctxm = mp.get_context('fork')

    def spawn():
        pa, ch = ctxm.Pipe()
        p = ctxm.Process(target=worker_main, args=(ch, opts), daemon=True)
        p.start()
        ch.close()
        return [p, pa, None]
    workers = [spawn() for _ in range(a.jobs)]
    queue = list(reversed(jobs))        # LIFO on continuation jobs, FIFO on cases: first slices first
    later = []
    tot = {}
    fns = set()
    labels = {}
    violation = None
    mismatches = []
    incon = []
    samples = []
    errors = []
    nval = 0
    nval_bad = 0
    replay_bad = []
    vio_seen = []
    known_seen = set()
    deadline_hit = False

    def request(cid, inputs, **kw):
        ci = case_info[cid]
        return dict(prop=pid, module=module, harness=hs[ci['h']].name, params=ci['params'], inputs=inputs, known=known_ids, **kw)

    def handle(job, r, dt):
        nonlocal violation, nval, nval_bad
        ci = case_info[job['cid']]
        ci['pending'] -= 1
        ci['time'] += dt
        if 'error' in r:
            errors.append((hs[ci['h']].name, ci['params'], r['error']))
            return
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
        ci['paths'] += r['stats']['paths']
        ci['checked'] += r['checked_paths']
        fns.update(r['fns'])
        known_seen.update(r['known'])
        labels.setdefault(hs[ci['h']].name, set()).update(r['labels'])
        for pre in r['open']:
            ci['pending'] += 1
            later.append({'prop': pid, 'h': job['h'], 'params': job['params'], 'prefix': pre, 'cid': job['cid']})
        for s in r['samples']:
            if nval < opts_replay_max:
                x = rep.run(request(job['cid'], s['inputs']))
                nval += 1
                obs = [list(o) for o in s['observed']]
                if x['status'] in ('violation', 'exception', 'hang', 'crash') and violation is None:
                    confirm(job['cid'], {'label': 'path witness', 'inputs': s['inputs'], 'kind': 'witness'}, x)
                elif x['status'] != 'ok' or x['observed'] != obs:
                    nval_bad += 1
                    replay_bad.append({'harness': hs[ci['h']].name, 'params': ci['params'], 'inputs': s['inputs'],
                                       'engine': obs, 'real': x['observed'], 'status': x['status']})
                if len(samples) < 12:
                    samples.append({'harness': hs[ci['h']].name, 'params': ci['params'], 'inputs': s['inputs'], 'observed': x.get('observed')})
        for s in r['incon']:
            ci['incon'] += 1
            s['harness'] = hs[ci['h']].name
            s['params'] = ci['params']
            incon.append(s)
            # degraded paths still get their witness executed for real (exploration, reported as inconclusive)
            if s['inputs'] is not None and violation is None and len(incon) <= 400:
                x = rep.run(request(job['cid'], s['inputs']))
                s['replay'] = x['status']
                if x['status'] in ('violation', 'exception', 'hang', 'crash'):
                    confirm(job['cid'], {'label': s['label'], 'inputs': s['inputs'], 'kind': s['kind']}, x)
        v = r['violation']
        if v is not None:
            x = rep.run(request(job['cid'], v['inputs']))
            confirm(job['cid'], v, x)

    def confirm(cid, v, x):
        nonlocal violation
        ci = case_info[cid]
        rec = dict(request(cid, v['inputs']), claim=v, result=x)
        if x['status'] in ('violation', 'exception', 'hang', 'crash'):
            if a.keep_going:
                key = (ci['h'], x.get('label') or x.get('error'))
                if key not in vio_seen:
                    vio_seen.append(key)
                    print('VIOL', json.dumps({k: rec[k] for k in ('harness', 'params', 'inputs', 'result')})[:1500])
            if violation is None:
                violation = rec
        else:
            mismatches.append(rec)

    opts_replay_max = 150 if tier == 'quick' else 1500
    t_end = t0 + deadline
    stop = False
    idx = {}
    while True:
        now = time.time()
        if violation is not None and not a.keep_going:
            stop = True
        if now > t_end:
            stop = True
            deadline_hit = True
        busy = 0
        for w in workers:
            if w[2] is None and not stop:
                if queue:
                    job = queue.pop()
                elif later:
                    job = later.pop(0)
                else:
                    continue
                w[2] = (job, time.time())
                try:
                    w[1].send(job)
                except (BrokenPipeError, OSError):
                    pass
            if w[2] is not None:
                busy += 1
        if not busy:
            break
        if stop and now > t_end + 5 or (stop and violation is not None and not a.keep_going):
            break
        ready = mp.connection.wait([w[1] for w in workers if w[2] is not None], timeout=1.0)
        for w in workers:
            if w[2] is None:
                continue
            job, ts = w[2]
            if w[1] in ready:
                try:
                    r = w[1].recv()
                except EOFError:
                    r = {'error': 'worker died'}
                    w[0].join()
                    w[0], w[1] = spawn()[:2]
                w[2] = None
                handle(job, r, time.time() - ts)
            elif time.time() - ts > opts['slice'] + 3 * opts['path_limit'] + 30:
                w[0].kill()
                w[0].join()
                w[0], w[1] = spawn()[:2]
                w[2] = None
                handle(job, {'error': 'worker stuck'}, time.time() - ts)
    unfinished = queue + later + [w[2][0] for w in workers if w[2] is not None]
    for w in workers:
        w[0].kill()
    for w in workers:
        w[0].join()
    # known findings: print those that still fail
    kf_lines = []
    for k in kf:
        req = dict(prop=pid, module=module, harness=k['harness'], params=k['params'], inputs=k['inputs'], known=[])
        x = rep.run(req)
        if x['status'] in ('violation', 'exception', 'hang', 'crash'):
            kf_lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
    rep.stop()
    wall = time.time() - t0
    complete = sum(1 for c in case_info if c['pending'] == 0)
    vac = []
    for hi, h in enumerate(hs):
        cs = [c for c in case_info if c['h'] == hi]
        if cs and not sum(c['checked'] for c in cs):
            vac.append(h.name)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'states': tot.get('paths', 0),
            'transitions': tot.get('branches', 0) + tot.get('forks', 0),
            'traces_validated_against_impl': nval - nval_bad,
            'samples': samples,
            'exhaustive': bool(complete == ncases and not incon and not deadline_hit and violation is None),
            'cases': ncases, 'cases_complete': complete,
            'unexplored_subtrees': len(unfinished),
            'paths_checked': sum(c['checked'] for c in case_info),
            'infeasible_paths': tot.get('infeasible', 0),
            'assertions': tot.get('checks', 0), 'assertions_structural': tot.get('checks_trivial', 0),
            'assertions_by_solver': tot.get('checks_solver', 0),
            'solver_queries': tot.get('queries', 0), 'sat': tot.get('sat', 0), 'unsat': tot.get('unsat', 0), 'unknown': tot.get('unknown', 0),
            'solver_time_s': round(tot.get('solver_time', 0.0), 3),
            'functions_encoded': sorted(fns),
            'harnesses': [{'name': h.name, 'bounds': h.bounds, 'cases': sum(1 for c in case_info if c['h'] == hi),
                           'paths': sum(c['paths'] for c in case_info if c['h'] == hi),
                           'checked_paths': sum(c['checked'] for c in case_info if c['h'] == hi),
                           'reached': sorted(labels.get(h.name, ()))} for hi, h in enumerate(hs)],
            'inconclusive': {'count': len(incon), 'by_reason': _count(f"{s['kind']}: {s['label']}" for s in incon), 'examples': incon[:5]},
            'engine_mismatches': [{k: m[k] for k in ('harness', 'params', 'inputs', 'claim', 'result')} for m in mismatches[:5]],
            'witness_disagreements': replay_bad[:5],
            'errors': [list(e) for e in errors[:5]],
            'vacuous_harnesses': vac,
            'known_findings_hit': sorted(known_seen),
            'explanation': 'states = feasible execution paths of the real source explored symbolically; transitions = branch decisions; '
                           'traces_validated = path witnesses (solver models) re-executed on the unmodified sources with identical observations',
        },
        'assumptions': sorted({x for h in hs for x in h.assumes}) + index[pid].get('assumptions', []),
        'wall_s': round(wall, 2),
        'violations': 1 if violation is not None else 0,
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
    print(f"{pid}: {tot.get('paths', 0)} paths, {complete}/{ncases} cases complete, {tot.get('checks', 0)} assertions "
          f"({tot.get('checks_solver', 0)} by solver), {tot.get('queries', 0)} queries {tot.get('solver_time', 0):.1f}s, "
          f"{nval} witnesses replayed ({nval_bad} disagree), {len(incon)} inconclusive, {len(mismatches)} mismatches, {wall:.1f}s")
    if a.verbose:
        for h in ev['coverage']['harnesses']:
            print('  ', h['name'], 'cases', h['cases'], 'paths', h['paths'], 'checked', h['checked_paths'], h['reached'])
        for c in sorted(case_info, key=lambda c: -c['time'])[:6]:
            print('   slow', round(c['time'], 1), c['paths'], hs[c['h']].name, c['params'], 'pending', c['pending'])
        for r, n in ev['coverage']['inconclusive']['by_reason'].items():
            print('   inconclusive', n, r)
        for s in incon[:3]:
            print('     e.g.', json.dumps(s)[:400])
        for m in replay_bad[:3]:
            print('   disagree', json.dumps(m)[:1500])
    for line in kf_lines:
        print(line)
    if violation is not None:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{pid}.json')
        with open(path, 'w') as f:
            json.dump(violation, f, indent=1)
        x = violation['result']
        print(f"  harness {violation['harness']} {json.dumps(violation['params'])}")
        print(f"  inputs {json.dumps(violation['inputs'])[:1000]}")
        print(f"  {x['status']}: {x.get('label') or x.get('type', '')} {x.get('detail') or x.get('error') or ''}"[:1000])
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    for e in errors[:3]:
        print('ERROR', e[0], e[1], e[2][-1500:])
    for m in mismatches[:3]:
        print('MISMATCH', json.dumps({k: m[k] for k in ('harness', 'params', 'inputs', 'claim', 'result')})[:1500])
    if vac:
        print('VACUOUS harnesses:', vac)
    total_checked = sum(c['checked'] for c in case_info)
    if total_checked == 0 or vac and not incon:
        print(f'ERROR property={pid}: nothing was decided')
        return 2
    if errors or mismatches:
        # the encoding misrepresents the code somewhere: no verdict unless it is confined to a small part
        bad = len(errors) + len(mismatches)
        if bad > 0.5 * max(1, ncases):
            print(f'ERROR property={pid}: {bad} engine errors')
            return 2
    return 0


def _count(it):
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return dict(sorted(d.items(), key=lambda kv: -kv[1])[:20])


if __name__ == '__main__':
    sys.exit(main())
