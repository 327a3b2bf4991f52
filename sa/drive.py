"""Obligation runner: explores every branch an obligation leaves open.

An *obligation* is one instance of a rule: a sequence of public API uses on
abstract values plus the relation that must hold.  It is evaluated by the
abstract interpreter on the syntax trees of the current /repo/dsch; nothing
of dsch is imported or executed.
"""
import ast
import gc
import glob
import json
import multiprocessing
import os
import re
import sys
import threading
import time
import traceback

from .values import *
from .interp import Interp, Frame
from .libs import Libs

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ------------------------------------------------------------------ sources
def load_sources(repo):
    """Parse all modules of the dsch package: name -> (file, tree)."""
    out = {}
    base = os.path.join(repo, 'dsch')
    for dirpath, dirs, files in os.walk(base):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        for fn in sorted(files):
            if not fn.endswith('.py'):
                continue
            path = os.path.join(dirpath, fn)
            rel = os.path.relpath(path, repo)
            mod = rel[:-3].replace(os.sep, '.')
            if mod.endswith('.__init__'):
                mod = mod[:-9]
            with open(path, encoding='utf-8') as f:
                src = f.read()
            out[mod] = (path, ast.parse(src, path))
    return out


class Obligation:
    def __init__(self, key, rule, fn, group=''):
        self.key, self.rule, self.fn = key, rule, fn
        self.group = group


class Ctx:
    """What the workers inherit by fork."""
    repo = '/repo'
    sources = None
    obligations = None
    max_paths = 200
    tier = 'quick'


def run_path(ob, script):
    from .world import World
    I = Interp(Ctx.repo, Ctx.sources, Libs(), script)
    I.stack.append(Frame('top', None, 0))
    w = World(I)
    res = {'kind': 'ok'}
    try:
        ob.fn(w)
    except Violation as v:
        res = {'kind': 'violation', 'msg': v.message, 'where': v.where}
    except Raised as r:
        res = {'kind': 'violation',
               'msg': 'raises %s' % w.exc_text(r),
               'where': r.exc.attrs.get('origin') if isinstance(r.exc, Obj)
               else None}
    except Unsupported as u:
        res = {'kind': 'undecided', 'msg': 'no transfer function: %s at %s'
               % (u, I.where())}
    except RecursionError:
        res = {'kind': 'undecided', 'msg': 'analysis recursion limit'}
    except Exception:
        res = {'kind': 'undecided', 'msg': 'analyser: '
               + traceback.format_exc(limit=-6)}
    if res['kind'] == 'violation' and w.undecided_reason:
        res['kind'] = 'undecided'
        res['msg'] += ' (%s)' % w.undecided_reason
    res['trace'] = I.trace
    res['calls'] = I.calls
    res['seen'] = I.seen
    res['imprecise'] = bool(I.imprecise)
    res['imprecise_why'] = I.imprecise[:3]
    res['api'] = w.api
    res['steps'] = I.steps
    res['checks'] = w.checks
    return res


def run_obligation(i):
    gc.set_threshold(50000, 20, 50)
    ob = Ctx.obligations[i]
    scripts = [[]]
    results = []
    calls, seen = set(), set()
    steps = checks = 0
    capped = False
    t0 = time.time()
    while scripts:
        if len(results) >= Ctx.max_paths or time.time() - t0 > 240:
            capped = True
            break
        s = scripts.pop()
        r = run_path(ob, s)
        tr = r['trace']
        chosen = [t[1] for t in tr]
        for j in range(len(s), len(tr)):
            for alt in range(1, tr[j][0]):
                scripts.append(chosen[:j] + [alt])
        calls |= r['calls']
        seen |= r.pop('seen')
        steps += r['steps']
        checks += r['checks']
        results.append(r)
    out = {'key': ob.key, 'rule': ob.rule, 'paths': len(results),
           'calls': sorted((f or '?', q) for f, q in calls), 'steps': steps,
           'seen': sorted((f, n) for f, n in seen if f), 'checks': checks, 'capped': capped, 'time': time.time() - t0}
    viol = [r for r in results if r['kind'] == 'violation']
    und = [r for r in results if r['kind'] == 'undecided']
    precise = [r for r in viol if not r['imprecise']]
    imp = [r for r in viol if r['imprecise']]
    if precise or (imp and len(viol) == len(results) and not capped):
        # on an imprecise decision, only a failure of all alternatives counts
        r = (precise or imp)[0]
        out['kind'] = 'violation'
        out['msg'], out['where'] = r['msg'], r['where']
        out['api'] = r['api']
        out['decisions'] = ['%s: %s at %s' % (t[2], 'yes' if t[1] == 0 else
                                              'no' if t[0] == 2 else t[1],
                                              t[3]) for t in r['trace']]
        out['callpath'] = sorted('%s:%s' % (f, q) for f, q in r['calls']
                                 if f)[:60]
    elif und or imp or capped:
        out['kind'] = 'undecided'
        r = (und or imp or results)[0]
        out['msg'] = ('branch limit reached' if not (und or imp) else
                      r.get('msg', '') + (
                          ' (depends on: %s)' % r['imprecise_why']
                          if r['imprecise'] else ''))
        out['api'] = r['api']
    else:
        out['kind'] = 'ok'
    return out


def _big_stack(fn, *a):
    """Run fn in a thread with a large stack (deep recursion)."""
    res = []

    def go():
        sys.setrecursionlimit(20000)
        try:
            res.append(fn(*a))
        except BaseException:
            res.append(traceback.format_exc())
    old = threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    threading.stack_size(old)
    t.join()
    return res[0]


def _worker(i):
    r = _big_stack(run_obligation, i)
    if isinstance(r, str):
        ob = Ctx.obligations[i]
        r = {'key': ob.key, 'rule': ob.rule, 'paths': 0, 'calls': [],
             'seen': [],
             'steps': 0, 'checks': 0, 'capped': False, 'time': 0,
             'kind': 'undecided', 'msg': 'analyser: ' + r[-600:], 'api': []}
    return r


def run_all(obs, jobs=None):
    Ctx.obligations = obs
    jobs = jobs or min(8, os.cpu_count() or 1)
    if jobs == 1 or len(obs) < 4:
        return [_worker(i) for i in range(len(obs))]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(jobs) as pool:
        return pool.map(_worker, range(len(obs)),
                        chunksize=max(1, min(8, len(obs) // (jobs * 4))))


# ----------------------------------------------------------- known findings
def known_findings(prop):
    """Entries of KNOWN_FINDINGS: lines
         known: property=Cxx obligation=<glob> match=<regex> | <text>
       ('fixed:' lines are a record only and suppress nothing)."""
    out = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if not os.path.exists(path):
        return out
    for line in open(path):
        m = re.match(r'known: property=(\S+) obligation=(\S+) '
                     r'match=/(.*)/ \| (.*)', line.strip())
        if m and m.group(1) == prop:
            out.append(m.groups()[1:])
    return out


def glob_match(pat, key):
    return re.fullmatch('.*'.join(map(re.escape, pat.split('*'))),
                        key) is not None


def finish(prop, level, results, structural, meta, seed, tier, t0):
    """Report, write evidence, and give the exit code."""
    viol = [r for r in results if r['kind'] == 'violation']
    und = [r for r in results if r['kind'] == 'undecided']
    ok = [r for r in results if r['kind'] == 'ok']
    known, new = {}, []
    kf = known_findings(prop)
    for r in viol:
        for pat, rx, text in kf:
            if glob_match(pat, r['key']) and re.search(rx, r['msg']):
                known.setdefault((pat, text), []).append(r)
                break
        else:
            new.append(r)
    funcs = sorted({'%s:%s' % (os.path.relpath(f, Ctx.repo), q)
                    for r in results for f, q in r['calls']})
    seen = {(os.path.relpath(f, Ctx.repo), n)
            for r in results for f, n in r['seen']}
    stmts = {}
    for f, tree in Ctx.sources.values():
        f = os.path.relpath(f, Ctx.repo)
        ls = {n.lineno for n in ast.walk(tree) if isinstance(n, ast.stmt)
              and not (isinstance(n, ast.Expr)
                       and isinstance(n.value, ast.Constant))}
        hit = {n for g, n in seen if g == f}
        if hit:
            stmts[f] = {'reached': len(ls & hit), 'of': len(ls),
                        'not_reached_lines': sorted(ls - hit)}
    rules = {}
    for r in results:
        d = rules.setdefault(r['rule'], {'obligations': 0, 'discharged': 0,
                                         'undecided': 0, 'violated': 0,
                                         'known': 0})
        d['obligations'] += 1
        d[{'ok': 'discharged', 'undecided': 'undecided',
           'violation': 'violated'}[r['kind']]] += 1
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'explanation': meta,
            'rules': rules,
            'obligations': len(results),
            'obligations_discharged': len(ok),
            'obligations_undecided': len(und),
            'undecided': [{'key': r['key'], 'why': r['msg'][:400]}
                          for r in und[:40]],
            'paths_explored': sum(r['paths'] for r in results),
            'statements_interpreted': sum(r['steps'] for r in results),
            'relations_checked': sum(r['checks'] for r in results),
            'functions_analysed': funcs,
            'statements_reached': stmts,
            'obligation_keys': [r['key'] for r in results][:400],
            'source_files': sorted(os.path.relpath(f, Ctx.repo) for f, _ in
                                   Ctx.sources.values()),
            'structural': structural,
        },
        'violations': len(new),
        'known_findings': sorted(t for _, t in known),
        'wall_s': round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for (pat, text), rs in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    print('%s: %d obligations, %d discharged, %d violated, %d known, '
          '%d undecided; %d paths, %d functions; %.1f s'
          % (prop, len(results), len(ok), len(new), len(viol) - len(new),
             len(und), ev['coverage']['paths_explored'], len(funcs),
             time.time() - t0))
    for r in und[:5]:
        print('  undecided: %s: %s' % (r['key'], r['msg'][-300:]))
    if new:
        os.makedirs(os.path.join(VERIF, 'reports'), exist_ok=True)
        rep = os.path.join(VERIF, 'reports', prop + '.json')
        with open(rep, 'w') as f:
            json.dump([{k: v for k, v in r.items() if k not in (
                           'calls', 'seen')}
                       for r in new], f, indent=1)
        for r in new[:10]:
            print('  %s [%s] %s' % (r.get('where') or '?', r['key'],
                                    r['msg'][:500]))
            print('     rule: %s; after: %s' % (
                r['rule'], ' ; '.join(r['api'][-6:])[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    if not ok or len(und) > len(results) // 2:
        print('NO ANSWER: most obligations of %s could not be decided' % prop)
        return 2
    return 0
