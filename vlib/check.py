"""Check framework: abstract scenarios and syntax-tree rules, obligations, findings, evidence."""
import ast
import json
import multiprocessing as mp
import os
import signal
import sys
import threading
import time
import traceback

from . import holes as H
from . import scen
from .core import *
from .scen import D, T, fresh, same, show, to_host

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.dirname(scen.SRC)
BASE = None


class Job:
    """One scenario: an abstract execution of a part of the application's public interface."""

    def __init__(self, name, fn, args=(), limit=None):
        self.name, self.fn, self.args, self.limit = name, fn, args, limit


class J:
    """What a scenario function gets."""

    def __init__(self, name):
        self.name = name
        self.obs = []           # (key, ok, message, where)
        self.paths = 0
        self.it = None
        self.inconc = []
        self.unsure = None      # a construct without a model

    def interp(self, **kw):
        it = BASE
        for k in ('notes', 'hooks'):
            getattr(it, k).clear()
        it.encodings.clear()
        it.fault_sites = None
        it.trace_calls = None
        it.roots = []
        it.answers = None
        it.record_fs = False
        it.sax_split = it.cut_texts = 1
        it.startfile, it.missing, it.platform = False, (), {}
        for k, v in kw.items():
            setattr(it, k, v)
        self.it = it
        return it

    def run(self, f, st=None, allow=(), **kw):
        """Abstract execution of f(D) from the state; returns the outcomes.  An exception of the analysed
        program outside 'allow' makes an outcome of kind 'X'."""
        it = self.interp(**kw)
        s = (st or it.st).fork()
        outs = it.run(s, lambda i: f(D(i)))
        self.paths += len(outs)
        if not outs:
            self.inconc.append(f'{self.name}: no feasible path')
        for n in (*it.notes, *it.base_notes):
            self.inconc.append(f'note: {n}')
            if not n.startswith(('partitions dropped', 'loop bound', 'class attribute assigned')):
                self.unsure = n
        return outs

    def fs(self, st, files):
        st.fs = {**st.fs, **files}
        return st

    def base(self, files=None):
        s = BASE.st.fork()
        s.events = ()
        if files:
            s.fs = {**s.fs, **files}
        return s

    def ob(self, key, ok, msg='', where=None):
        if ok is False and self.unsure:
            # the values depend on a construct without a model: nothing is decided
            ok, msg = None, f'{msg} (after {self.unsure})'
        self.obs.append((key, ok, msg, where or ''))
        return ok

    def eq(self, key, got, want, what, where=None, facts=None):
        ok = same(got, want, facts)
        return self.ob(key, ok, f'{what}: {show(got)} instead of {show(want)}' if ok is not True else '', where)

    def anchor(self, *names, mods=None):
        """file:line (function) of the covered constructs mentioning the names."""
        return anchors(self.it, names, mods)

    def raised(self, key, kind, v, st, what, where=None):
        """Obligation: the outcome is no exception."""
        if kind == 'N':
            return self.ob(key, True)
        return self.ob(key, False, f'{what}: raises {self.it.describe(v, st)}', where or st.xloc)


def anchors(it, names, mods=None, limit=6):
    names = set(names)
    out = []
    for q in sorted(it.covered):
        fn = it.fn_nodes.get(q)
        if fn is None or (mods and not any(q.startswith(m) for m in mods)):
            continue
        node, path = fn
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute) and n.attr in names or \
                    isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in names:
                out.append(f'{os.path.relpath(path, REPO)}:{n.lineno} ({q.split(":")[-1]})')
    seen = []
    for o in out:
        if o not in seen:
            seen.append(o)
    return ', '.join(seen[:limit])


# ------------------------------------------------------------------------------------- execution
def _child(job, q):
    res = {'name': job.name, 'obs': [], 'inconc': [], 'paths': 0, 'covered': [], 'stmts': 0, 'steps': 0, 'forks': 0}
    j = J(job.name)

    def body():
        try:
            job.fn(j, *job.args)
        except Budget as e:
            j.inconc.append(f'{job.name}: budget exceeded ({e})')
        except Unsupported as e:
            j.inconc.append(f'{job.name}: outside the abstract domain: {e}')
        except MemoryError:
            j.inconc.append(f'{job.name}: out of memory')
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            w = '; '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[-4:])
            j.inconc.append(f'{job.name}: analysis failed: {type(e).__name__}: {str(e)[:200]} ({w})'
                            + (f' at {j.it.loc()}' if j.it else ''))
    t = threading.Thread(target=body)
    t.start()
    t.join()
    res['obs'] = [(k, ok, m, w) for k, ok, m, w in j.obs]
    res['inconc'] = list(dict.fromkeys(j.inconc))
    res['paths'] = j.paths
    if j.it is not None:
        res['covered'] = sorted(j.it.covered)
        res['stmts'] = sorted(j.it.stmts) if j.it.stmts and isinstance(next(iter(j.it.stmts)), tuple) else []
        res['steps'], res['forks'] = j.it.steps, j.it.forks
    q.put(res)


def _entry(job, conn):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(60000)
    threading.stack_size(512 << 20)

    class Q:
        def put(self, r):
            conn.send(r)
    _child(job, Q())
    conn.close()
    os._exit(0)


def execute(jobs, deadline, par=None):
    """Run the jobs in forked processes; unfinished ones are inconclusive."""
    par = par or min(8, os.cpu_count() or 4)
    ctx = mp.get_context('fork')
    todo, running, results = list(jobs), [], []
    while todo or running:
        while todo and len(running) < par:
            job = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_entry, args=(job, b))
            p.start()
            b.close()
            running.append((job, p, a, time.time()))
        ready = mp.connection.wait([r[2] for r in running], timeout=0.5)
        for r in list(running):
            job, p, a, t0 = r
            if a in ready:
                try:
                    results.append(a.recv())
                except (EOFError, OSError):
                    results.append({'name': job.name, 'inconc': [f'{job.name}: analysis process ended'], 'obs': [],
                                    'paths': 0, 'covered': [], 'stmts': [], 'steps': 0, 'forks': 0})
                p.join()
                running.remove(r)
            elif time.time() > deadline or job.limit and time.time() - t0 > job.limit:
                p.kill()
                p.join()
                running.remove(r)
                results.append({'name': job.name, 'inconc': [f'{job.name}: time limit'], 'obs': [], 'paths': 0,
                                'covered': [], 'stmts': [], 'steps': 0, 'forks': 0})
        if time.time() > deadline and todo:
            for job in todo:
                results.append({'name': job.name, 'inconc': [f'{job.name}: not started in time'], 'obs': [], 'paths': 0,
                                'covered': [], 'stmts': [], 'steps': 0, 'forks': 0})
            todo = []
    order = {j.name: i for i, j in enumerate(jobs)}
    return sorted(results, key=lambda r: order.get(r['name'], 0))


# ------------------------------------------------------------------------------------- known findings
def known_findings():
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.isfile(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding: property='):
                f = line[len('finding: property='):].split(' ', 2)
                key = f[1][len('key='):]
                out.setdefault(f[0], {})[key] = f[2] if len(f) > 2 else ''
    return out


# ------------------------------------------------------------------------------------- main
def main(pid, tier, spec):
    """spec: dict with 'rule', 'assumptions', 'jobs'(tier), optional 'level'."""
    global BASE
    t0 = time.time()
    limit = 240 if tier == 'quick' else 780
    broken = None
    sys.setrecursionlimit(60000)
    threading.stack_size(512 << 20)

    def load():
        global BASE
        BASE = fresh()
    t = threading.Thread(target=load)
    t.start()
    t.join()
    if BASE is None:
        print(f'ANALYSIS-BROKEN property={pid} the source could not be loaded')
        return 2
    jobs = spec['jobs'](tier)
    if os.environ.get('VERIF_JOB'):
        jobs = [j for j in jobs if os.environ['VERIF_JOB'] in j.name]
    results = execute(jobs, t0 + limit)
    total = decided = 0
    viol, inconc, covered, rules = {}, [], set(), {}
    for r in results:
        inconc += r['inconc']
        covered |= set(r['covered'])
        for key, ok, msg, where in r['obs']:
            total += 1
            rules[key.split('/')[0]] = rules.get(key.split('/')[0], 0) + 1
            if ok is None:
                inconc.append(f'{r["name"]}: {key}: {msg}')
            elif ok:
                decided += 1
            else:
                decided += 1
                viol.setdefault(key, (r['name'], msg, where))
    known = known_findings().get(pid, {})
    new = {k: v for k, v in viol.items() if k not in known}
    for k in viol:
        if k in known:
            print(f'KNOWN-FINDING: property={pid} {k}: {known[k]}')
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, f'{pid}.violations.txt')
    if new:
        with open(replay, 'w', encoding='utf-8') as f:
            for k, (job, msg, where) in new.items():
                f.write(f'rule instance: {k}\n  scenario: {job}\n  finding: {msg}\n  construct: {where}\n'
                        f'  repeat: VERIF_JOB="{job}" python3 {VERIF}/check.py {pid} --tier {tier}\n\n')
        for k, (job, msg, where) in list(new.items())[:20]:
            print(f'VIOLATION property={pid} replay={replay}')
            print(f'  {k} [{job}]')
            print(f'  {msg[:600]}')
            if where:
                print(f'  in {where}')
    elif os.path.exists(replay):
        os.remove(replay)
    inconc = list(dict.fromkeys(inconc))
    for i in inconc[:20]:
        print(f'INCONCLUSIVE {i[:400]}')
    load_err = list(BASE.load_errors.items())
    cov = {
        'explanation': spec['rule'],
        'obligations': total,
        'discharged': decided - len([1 for r in results for o in r['obs'] if o[1] is False]),
        'scenarios': len(results),
        'paths': sum(r['paths'] for r in results),
        'abstract_steps': sum(r['steps'] for r in results),
        'functions_analysed': len(covered),
        'functions': sorted(covered)[:400],
        'obligations_by_rule': rules,
        'undecided': inconc[:40],
        'modules_loaded': len(BASE.modules),
        'modules_not_loaded': [f'{a}: {b}' for a, b in load_err][:10],
        'samples': [f'{r["name"]}: {len(r["obs"])} obligations on {r["paths"]} paths' for r in results[:12]],
    }
    with open(os.path.join(ev, f'{pid}.json'), 'w', encoding='utf-8') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
                   'coverage': cov, 'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2),
                   'violations': len(new)}, f, indent=1)
    print(f'{pid}: {total} obligations, {decided} decided, {len(new)} violated, {len(viol) - len(new)} known, '
          f'{len(inconc)} undecided notes, {len(results)} scenarios, {len(covered)} functions, '
          f'{time.time() - t0:.1f} s')
    if new:
        return 1
    if decided == 0:
        print(f'ANALYSIS-BROKEN property={pid} nothing could be decided')
        return 2
    return 0
