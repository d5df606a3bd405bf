#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--jobs N]      decide a property on /repo's current tree
check.py --replay <file>                                       run a counterexample against the real code

exit 0: held on everything explored; 1: violated (a VIOLATION line is printed); 2: no answer
"""
import argparse, json, os, sys, time, traceback, subprocess, multiprocessing as mp, resource, hashlib
from multiprocessing.connection import wait
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python'
KNOWN = os.path.join(HERE, 'known_findings.txt')


def known_findings():
    """{property: {finding: text}} of the recorded (not repaired) defects"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith('property='):
                continue
            pid, fid, text = line.split(None, 2)
            out.setdefault(pid.split('=', 1)[1], {})[fid.split('=', 1)[1]] = text
    return out


# ------------------------------------------------------------------ one configuration, in its own process
def worker(conn, prop, cfg, opts, listed):
    out = {'name': prop.name(cfg), 'cfg': cfg}
    try:
        from symx import run, api, world
        import warnings
        warnings.simplefilter('ignore')
        a = api.symbolic(prop.modules)
        with world.FunctionTrace() as ft:
            r = run.explore(lambda env: prop.harness(env, a, cfg), opts)
        st = r.ctx.stats
        out.update(paths=r.paths, completed=r.completed, infeasible=r.infeasible, errors=r.errors,
                   known=sorted(r.ctx.known), notes=sorted(r.ctx.notes), nchecks=r.ctx.nchecks,
                   identities=r.ctx.nident, witness=bool(getattr(r, 'witness', False)),
                   validation=getattr(r, 'validation', None), functions=sorted(ft.seen),
                   inputs={k: list(v) for k, v in r.ctx.inputs.items()})
        cands = []
        t1 = time.time()
        for kind, lst in (('check', r.candidates), ('beyond', r.beyond), ('division', r.divcands[:3])):
            for label, m, forms in lst:
                ms = []
                if kind == 'check' and m is not None:
                    ms.append(m)
                if forms is not None:
                    ms = run.nice_models(r.ctx, forms, k=4) + ms
                    if kind == 'check':
                        ms = ms + run.far_models(r.ctx, forms)
                cands.append({'kind': kind, 'label': label,
                              'models': [{k: str(x) for k, x in mm.items()} for mm in ms]})
        out['candidates'] = cands
        if hasattr(r, 'errors_tb'):
            out['traceback'] = r.errors_tb
        out['stats'] = dict(queries=st.queries, unsat=st.unsat, sat=st.sat, unknown=st.unknown,
                            solver_s=st.solver_s, kinds={k: list(v) for k, v in st.kinds.items()})
        out['time'] = r.time
    except BaseException as e:
        out['crash'] = '%s: %s' % (type(e).__name__, e)
        out['traceback'] = traceback.format_exc(limit=-6)
    try:
        conn.send(out)
        conn.close()
    finally:
        os._exit(0)


# ------------------------------------------------------------------ plain runs of the real code
def decode(m):
    return {k: v[2:] if v.startswith('s:') else Fraction(v) for k, v in m.items()}


def plain_run(prop, cfg, model, keep=False):
    """('ok'|'fail'|'assume', text, environment)"""
    from symx import run, api
    a = api.concrete(prop.modules)
    env = run.ConcEnv({k: (v if isinstance(v, str) else int(v) if v.denominator == 1 and abs(v) > 1 << 53 else v) for k, v in decode(model).items()},
                      **prop.opts.get('conc', {}))
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            prop.harness(env, a, cfg)
        except run.AssumeFailed:
            return 'assume', 'the input does not meet the assumptions', env
        except run.Failure as e:
            return 'fail', str(e), env
        except RecursionError as e:
            return 'fail', 'RecursionError', env
        except Exception as e:
            return 'fail', 'exception %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-3)), env
    return 'ok', '', env


def do_replay(path):
    d = json.load(open(path))
    import props
    prop = props.load()[d['property']]
    listed = set(known_findings().get(d['property'], {}))
    st, text, env = plain_run(prop, d['config'], d['model'])
    if st == 'ok' and set(env.knowns) - listed:
        st, text = 'fail', 'defect %s' % ', '.join(sorted(set(env.knowns) - listed))
    print('%s: %s %s' % (d['property'], st, text))
    return {'ok': 0, 'fail': 1, 'assume': 3}[st]


def do_search(path):
    """more inputs for a candidate whose query the solver answered without a usable model: the first one that fails plainly
    (well above the tolerance of a replay) is printed"""
    import random
    d = json.load(open(path))
    import props
    prop = props.load()[d['property']]
    prop.opts = dict(prop.opts, conc=dict(prop.opts.get('conc', {}), tol=max(1e-6, prop.opts.get('conc', {}).get('tol', 0))))
    rng = random.Random(11)
    end = time.time() + d['seconds']
    while time.time() < end:
        wide = rng.random() < 0.4
        m = {}
        for n, (kind, lo, hi) in d['inputs'].items():
            if kind == 'int':
                m[n] = str(rng.randint(-9 if lo is None else lo, (lo or 0) + 99 if hi is None else hi))
                continue
            lo, hi = -4 if lo is None else lo, 4 if hi is None else hi
            v = Fraction(round(rng.uniform(lo, hi) * 64), 64)
            m[n] = str(v * Fraction(2) ** rng.randint(-2, 2) if wide else v)
        st, text, env = plain_run(prop, d['config'], m)
        if st == 'fail':
            print(json.dumps(m))
            return 1
    return 0


def do_validate(path):
    """compare plain runs with the values computed symbolically"""
    d = json.load(open(path))
    import props
    import numpy as np
    prop = props.load()[d['property']]
    listed = set(known_findings().get(d['property'], {}))
    out = []
    for job in d['jobs']:
        st, text, env = plain_run(prop, job['config'], job['model'])
        r = {'status': st, 'text': text, 'points': 0, 'bad': [], 'unlisted': sorted(set(env.knowns) - listed)}
        if st == 'ok':
            for k, want in job['values'].items():
                if k not in env.recorded:
                    r['bad'].append('%s not recorded' % k)
                    continue
                got = env.recorded[k]
                if isinstance(want, str) or isinstance(got, str):
                    r['points'] += 1
                    if want != got:
                        r['bad'].append('%s: symbolic %r, real %r' % (k, want, got))
                    continue
                g = np.asarray(got, dtype=float)
                w = np.array(want[1], dtype=float).reshape(want[0])
                r['points'] += int(w.size)
                if g.shape != w.shape:
                    r['bad'].append('%s: shape' % k)
                    continue
                if g.size:
                    sc = max(np.abs(g).max(), np.abs(w).max(), 1e-30)
                    err = np.abs(g - w).max() / sc
                    if not err < 1e-6:
                        r['bad'].append('%s differs by %.2e of its largest entry' % (k, err))
        out.append(r)
    json.dump(out, sys.stdout)
    return 0


def sub(args, timeout):
    try:
        p = subprocess.run([PY, os.path.join(HERE, 'check.py')] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, text=True, cwd=scratch())
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return 124, '', 'timeout'


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        import tempfile, atexit, shutil
        _scratch = tempfile.mkdtemp(prefix='symx_')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


# ------------------------------------------------------------------ driver
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type=int, default=max(1, min(8, os.cpu_count() or 1)))
    ap.add_argument('--replay')
    ap.add_argument('--validate')
    ap.add_argument('--search')
    ap.add_argument('--only', help='substring of configuration names')
    ap.add_argument('-v', action='store_true')
    o = ap.parse_args()
    if o.replay:
        return do_replay(o.replay)
    if o.validate:
        return do_validate(o.validate)
    if o.search:
        return do_search(o.search)
    return check(o)


def check(o):
    t0 = time.time()
    import props
    from symx import api
    prop = props.load()[o.pid]
    listed = known_findings().get(o.pid, {})
    cfgs = prop.configs(o.tier, o.seed)
    if o.only:
        cfgs = [c for c in cfgs if o.only in prop.name(c)]
    budget = 780 if o.tier == 'quick' else float(os.environ.get('VERIF_BUDGET', 3300))
    per = prop.opts.get('config_s', 240) if o.tier == 'quick' else prop.opts.get('config_s', 240) * 4
    opts = dict(prop.opts, time_s=per * 0.8)
    if o.tier != 'quick':
        opts['max_paths'] = 10 * opts.get('max_paths', 20000)
    os.chdir(scratch())
    api.symbolic(prop.modules)        # imports the package's current source
    results, running = [], {}
    todo = sorted(enumerate(cfgs), key=lambda ic: len(ic[1].get('perms') or ()) <= 20)     # large meshes first
    ctx = mp.get_context('fork')
    undecided = []
    violation = None
    unreproduced = []
    replays = 0
    searches = [0]

    def finish(i, out):
        nonlocal violation, replays
        results.append((i, out))
        if o.v:
            s = out.get('stats', {})
            print('  %-70s %6.1fs paths %s queries %s errors %s known %s notes %s%s' % (
                out['name'], out.get('time', 0), out.get('paths'), s.get('queries'), out.get('errors'),
                out.get('known'), out.get('notes'), '' if not out.get('candidates') else
                ' CANDIDATE %s' % [(c['kind'], c['label'], len(c['models'])) for c in out['candidates']]), flush=True)
            if out.get('crash'):
                print(out.get('traceback', ''))
        if out.get('crash'):
            undecided.append('%s: %s' % (out['name'], out['crash']))
            return
        for e in out.get('errors', []):
            undecided.append('%s: %s' % (out['name'], e))
        for c in out.get('candidates', []):
            ok = False
            for m in c['models']:
                if replays > 60:
                    break
                replays += 1
                v = try_replay(o, prop, out['cfg'], out['name'], c, m)
                if v:
                    violation = violation or v
                    ok = True
                    break
            if not ok and c['kind'] == 'check' and searches[0] < 4:
                searches[0] += 1
                m = search(o, out)
                v = m and try_replay(o, prop, out['cfg'], out['name'], c, m)
                if v:
                    violation = violation or v
                    ok = True
            if ok:
                return
            if c['kind'] == 'check':
                undecided.append('%s: counterexample to "%s" did not show on the real code' % (out['name'], c['label']))
            elif c['kind'] != 'beyond':
                unreproduced.append('%s: %s' % (out['name'], c['label']))

    stop = False
    while (todo or running) and not stop:
        while todo and len(running) < o.jobs and time.time() - t0 < budget:
            i, cfg = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, prop, cfg, opts, listed))
            p.start()
            b.close()
            running[a] = (i, cfg, p, time.time())
        if not running:
            break
        for c in wait(list(running), timeout=1):
            i, cfg, p, ts = running.pop(c)
            try:
                out = c.recv()
            except EOFError:
                out = {'name': prop.name(cfg), 'cfg': cfg, 'crash': 'worker ended without an answer'}
            c.close()
            p.join(5)
            finish(i, out)
            if violation:
                stop = True
        for c, (i, cfg, p, ts) in list(running.items()):
            if time.time() - ts > per or time.time() - t0 > budget + 60:
                p.kill()
                p.join()
                running.pop(c)
                c.close()
                finish(i, {'name': prop.name(cfg), 'cfg': cfg, 'crash': 'time limit of %d s' % per})
    for c, (i, cfg, p, ts) in running.items():
        p.kill()
        p.join()
    for i, cfg in todo:
        if not violation:
            undecided.append('%s: not started within the time budget' % prop.name(cfg))
    results.sort(key=lambda r: r[0])
    res = [r for _, r in results]

    # values and assumptions, against plain runs of the real code
    val = {'points': 0, 'runs': 0, 'mismatches': []}
    if not violation:
        jobs = [dict(config=r['cfg'], model=r['validation']['model'], values=r['validation']['values'], name=r['name'])
                for r in res if r.get('validation') and not r.get('candidates')]
        if jobs:
            fn = os.path.join(scratch(), 'validate.json')
            json.dump({'property': o.pid, 'jobs': jobs}, open(fn, 'w'))
            rc, so, se = sub(['--validate', fn], 300)
            try:
                outs = json.loads(so)
            except ValueError:
                outs = []
                val['mismatches'].append('validation did not run: %s' % (se or so)[-500:])
            for job, r in zip(jobs, outs):
                val['runs'] += r['status'] == 'ok'
                val['points'] += r['points']
                if r['status'] == 'fail' or r['unlisted']:
                    c = {'kind': 'witness', 'label': r['text'] or 'defect ' + ', '.join(r['unlisted'])}
                    v = try_replay(o, prop, job['config'], job['name'], c, job['model'])
                    violation = violation or v
                for b in r['bad']:
                    val['mismatches'].append('%s: %s' % (job['name'], b))
    vac = [r['name'] for r in res if not r.get('witness') and not r.get('candidates') and not r.get('crash')
           and not r.get('errors')]
    known = sorted({k for r in res for k in r.get('known', ())})
    decided = len(cfgs) - len({u.split(': ')[0] for u in undecided})

    tot = {k: sum(r.get('stats', {}).get(k, 0) for r in res) for k in ('queries', 'unsat', 'sat', 'unknown', 'solver_s')}
    kinds = {}
    for r in res:
        for k, (n, s) in r.get('stats', {}).get('kinds', {}).items():
            a = kinds.setdefault(k, [0, 0.0])
            a[0] += n
            a[1] += s
    ev = {
        'property': o.pid, 'tier': o.tier, 'seed': o.seed, 'level': 'other',
        'coverage': {
            'explanation': 'The listed functions of /repo\'s current source are executed symbolically for every listed '
                           'configuration; z3 decides each assertion for all values of the symbolic inputs.',
            'bounds': prop.bounds,
            'functions_encoded': sorted({f for r in res for f in r.get('functions', ())}),
            'configurations': len(cfgs), 'configurations_decided': decided,
            'configuration_names': [r['name'] for r in res][:1000],
            'symbolic_inputs': sum(len(r.get('inputs', ())) for r in res),
            'paths': sum(r.get('paths', 0) for r in res), 'paths_completed': sum(r.get('completed', 0) for r in res),
            'assertions': sum(r.get('nchecks', 0) for r in res), 'queries': tot['queries'],
            'queries_unsat': tot['unsat'], 'queries_sat': tot['sat'], 'queries_unknown': tot['unknown'],
            'queries_by_purpose': {k: {'queries': n, 'seconds': round(s, 3)} for k, (n, s) in sorted(kinds.items())},
            'solver_s': round(tot['solver_s'], 3),
            'witnessed_configurations': sum(bool(r.get('witness')) for r in res),
            'configurations_without_witness': vac,
            'real_runs_compared': val['runs'], 'values_compared_with_real_runs': val['points'],
            'mismatches_with_real_runs': val['mismatches'],
            'undecided': undecided, 'notes': sorted({n for r in res for n in r.get('notes', ())}),
            'known_findings_met': known, 'unreproduced_division_warnings': unreproduced,
            'sample': res[0]['name'] if res else None,
        },
        'assumptions': prop.assumptions, 'wall_s': round(time.time() - t0, 2),
        'violations': [violation] if violation else [],
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', o.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s %s: %d of %d configurations decided, %d paths, %d assertions, %d queries, solver %.1f s, wall %.1f s' % (
        o.pid, o.tier, decided, len(cfgs), ev['coverage']['paths'], ev['coverage']['assertions'], tot['queries'],
        tot['solver_s'], time.time() - t0))
    if violation:
        print('VIOLATION property=%s replay=%s' % (o.pid, violation['replay']))
        print('  %s: %s' % (violation['config'], violation['what']))
        return 1
    for k in known:
        if k in listed:
            print('KNOWN-FINDING: property=%s %s %s' % (o.pid, k, listed[k]))
    unlisted = [k for k in known if k not in listed]
    for u in undecided[:20]:
        print('UNDECIDED ' + u)
    if unlisted:
        print('defects %s seen symbolically only' % unlisted)
        return 2
    if val['mismatches']:
        print('\n'.join('MISMATCH ' + m for m in val['mismatches'][:10]))
        return 2
    if vac:
        print('assumptions without a witness: %s' % ', '.join(vac[:10]))
        return 2
    if not cfgs or decided * 2 < len(cfgs):
        return 2
    return 0


def search(o, out):
    ins = out.get('inputs') or {}
    if not ins or any(v[0] not in ('real', 'int') for v in ins.values()):
        return None
    fn = os.path.join(scratch(), 'search.json')
    json.dump({'property': o.pid, 'config': out['cfg'], 'inputs': ins, 'seconds': 20}, open(fn, 'w'))
    rc, so, se = sub(['--search', fn], 60)
    try:
        return json.loads(so.strip().split('\n')[-1]) if rc == 1 else None
    except ValueError:
        return None


def try_replay(o, prop, cfg, name, c, m):
    """run the counterexample against the real code; a description if it fails there"""
    d = {'property': o.pid, 'config': cfg, 'config_name': name, 'label': c['label'], 'model': m}
    h = hashlib.sha1(json.dumps(d, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(HERE, 'replays', '%s-%s.json' % (o.pid, h))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump(d, f, indent=1)
    rc, so, se = sub(['--replay', path], 120)
    if rc == 1:
        return {'config': name, 'what': so.strip().split('\n')[0][:500], 'label': c['label'], 'replay': path}
    os.remove(path)
    return None


if __name__ == '__main__':
    sys.exit(main())
